"""Which entry points and rules decide which property."""
from engine.check import Unit, LIFE, FUNC, ALL
from engine import witness, statics

AI = 'abstract interpretation of the resolved AST (polyhedra over segmented memory, loop invariants by generalisation)'
WIT = 'type-level witnesses: static assertions over cross products of types, compiled by g++ and clang++ and never run'
TABLE = {}


def prop(pid, units=(), checks=(), level='proof', technique=AI, note='', assumptions=()):
    TABLE[pid] = {'units': list(units), 'checks': list(checks), 'level': level, 'technique': technique, 'note': note,
                  'assumptions': list(assumptions)}


def kinds(driver, pattern, rules, only=('-DKIND_NOEXCEPT', '-DKIND_TRIVIAL', '-DKIND_NUMBER=long', '-DKIND_NUMBER=double'), skip_integers=None, **kw):
    """The same entry points for other kinds of element: moves that cannot throw, trivially copyable, numbers."""
    return [Unit(driver, '^(?!spec_C.._(%s)$)' % skip_integers + pattern if skip_integers and k == '-DKIND_NUMBER=long' else pattern, rules, flags=(k,), **kw) for k in only]


SIZES = 'sizes are below 2^31 unless an entry point says otherwise'
prop('C01', [Unit('array.cpp', 'spec_C0[134]_', LIFE)] + kinds('array.cpp', 'spec_C0[134]_', LIFE, only=('-DKIND_TRIVIAL', '-DKIND_NOEXCEPT')), note='Every array operation analysed for all sizes: each element destroyed once, each buffer freed once, no access outside the buffer. Repeated for element types whose moves cannot throw and that are trivially copyable.', assumptions=[SIZES])
prop('C02', [Unit('array.cpp', 'spec_C02_', ALL)] + kinds('array.cpp', 'spec_C02_', ALL, only=('-DKIND_NOEXCEPT',)), note='Every array operation analysed with every element operation as a possible throwing point, for all sizes and indices. Repeated for element types whose moves cannot throw.', assumptions=[SIZES])
prop('C03', [Unit('array.cpp', 'spec_C03_', FUNC)] + kinds('array.cpp', 'spec_C03_', FUNC, skip_integers='generate|convert|convert_explicit'), note='Contents of arrays after every operation, element k for arbitrary k and all sizes. Repeated for element types whose moves cannot throw, that are trivially copyable, and that are numbers.', assumptions=[SIZES])
prop('C04', [Unit('array.cpp', 'spec_C04_', FUNC)] + kinds('array.cpp', 'spec_C04_', FUNC) + [Unit('array.cpp', 'spec_C04x_', FUNC, modes=('exact',))] + kinds('array.cpp', 'spec_C04x_', FUNC, modes=('exact',)), note='Access, bounds checking and comparison for all sizes and indices. Repeated for element types whose moves cannot throw, that are trivially copyable, and that are numbers.', assumptions=[SIZES])
prop('C05', [Unit('shared_array.cpp', 'spec_C05_', ALL)] + kinds('shared_array.cpp', 'spec_C05_', ALL), note='Sharing, counting and release of shared arrays for all sizes and the sharing patterns of up to three handles. Repeated for element types whose moves cannot throw, that are trivially copyable, and that are numbers.', assumptions=[SIZES])

HIST = 'histories are bounded as the note says; labels, values and orders within them are arbitrary'
prop('C06', [Unit('lru_cache.cpp', 'spec_C06_', ALL, modes=('exact',))] + kinds('lru_cache.cpp', 'spec_C06_', ALL, modes=('exact',)), level='other', technique=AI, note='Caches of capacity 1 to 3 (and any capacity with two entries), filled by up to four insertions of arbitrary labels, then queried, looked up or refused: membership, values, size and exceptions for every label and every key order. Repeated for keys whose moves cannot throw, that are trivially copyable, and that are numbers.', assumptions=[HIST])
prop('C07', [Unit('lru_cache.cpp', 'spec_C07_(history|queries|rotation|large)', FUNC, modes=('exact',)), Unit('lru_cache.cpp', 'spec_C07_deep', FUNC, modes=('exact',), thorough_only=True, secs=700)], level='other', technique=AI, note='All histories of up to five insertions and lookups on caches of capacity 1 to 3 (six, up to capacity 4, in the thorough run), over every order of arbitrary labels, against a most-recently-used list; rotations over capacity 4 and 5; capacities 8, 9, 16 and 33 with any one entry used before three evictions; capacity 258 filled; a history of 300 steps.', assumptions=[HIST])
prop('C08', [Unit('lru_cache.cpp', 'spec_C08_', ALL, modes=('exact',))], level='other', technique=AI, note='Insertion of every held value by reference, after every pattern of lookups, and insertion with each copy a possible throwing point, on caches of capacity 1 to 3, 9 and 16.', assumptions=[HIST])
prop('C09', [Unit('lazy.cpp', 'spec_C09_', ALL)], note='Construction, copies, moves, assignment, first and later accesses (any number), throwing generators and release of the produced object.')

prop('C10', [Unit('list.cpp', 'spec_C10_', FUNC)] + kinds('list.cpp', 'spec_C10_', FUNC, skip_integers='linked_list|linked_linked'), note='List and linked list constructors, append, concatenate and catenation for all lengths and an arbitrary position k, receiver and argument distinct or the same object. Repeated for element types whose moves cannot throw, that are trivially copyable, and that are numbers.', assumptions=[SIZES])
prop('C11', [Unit('list.cpp', 'spec_C11_', FUNC), Unit('list.cpp', 'spec_C11_elementwise', FUNC, flags=('-DNDEBUG',)), Unit('set.cpp', 'spec_C11_', FUNC), Unit('set.cpp', 'spec_C11x_', FUNC, modes=('exact',))] + kinds('list.cpp', 'spec_C11_', FUNC, skip_integers='list_convert') + kinds('set.cpp', 'spec_C11_', FUNC), note='Application, element-wise application (debug and release) and conversions for all lengths and an arbitrary position; set to list and list to set conversions also exactly on small collections. Repeated for element types whose moves cannot throw, that are trivially copyable, and that are numbers.', assumptions=[SIZES])
prop('C12', [Unit('set.cpp', 'spec_C12_', FUNC), Unit('set.cpp', 'spec_C12x_', FUNC, modes=('exact',))] + kinds('set.cpp', 'spec_C12_', FUNC) + kinds('set.cpp', 'spec_C12x_', FUNC, modes=('exact',)), note='Every set operation for arbitrary sets and an arbitrary element, operands distinct or the same object; the vector forms of disjoint and intersection additionally on all small inputs. Repeated for element types whose moves cannot throw, that are trivially copyable, and that are numbers.', assumptions=['element comparison is a total order consistent with equality'])
prop('C13', [Unit('map.cpp', 'spec_C13_', FUNC), Unit('map.cpp', 'spec_C13x_', FUNC, modes=('exact',))] + kinds('map.cpp', 'spec_C13_', FUNC) + kinds('map.cpp', 'spec_C13x_', FUNC, modes=('exact',)), note='Every map operation for arbitrary maps and an arbitrary key and value, operands distinct or the same object; order of keys and values on all small maps. Repeated for keys whose moves cannot throw, that are trivially copyable, and that are numbers.', assumptions=['key comparison is a total order consistent with equality'])
prop('C14', [Unit('unique.cpp', 'spec_C14_', FUNC), Unit('unique.cpp', 'spec_C14x_', FUNC, modes=('exact',))] + kinds('unique.cpp', 'spec_C14_', FUNC) + kinds('unique.cpp', 'spec_C14x_', FUNC, modes=('exact',)), note='Lists of any length with a value at two positions, or nowhere; and all lists of up to four elements, with every equality pattern. Repeated for element types whose moves cannot throw, that are trivially copyable, and that are numbers.', assumptions=['element comparison is a total order consistent with equality', SIZES])

prop('C15', [Unit('print.cpp', 'spec_C15_', FUNC), Unit('print.cpp', 'spec_C15x_', FUNC, modes=('exact',))] + kinds('print.cpp', 'spec_C15_', FUNC, only=('-DKIND_TRIVIAL', '-DKIND_NUMBER=double')) + kinds('print.cpp', 'spec_C15_(?!write_(map_)?pointer|write_coeff)', FUNC, only=('-DKIND_NUMBER=long', '-DKIND_NUMBER=bool')), note='The text of every printer and generic writer for sequences of any length with arbitrary delimiters; sets, maps and nested lists on all small collections, sets and maps of numbers up to 17 entries. Repeated for elements that are trivially copyable and for numbers.', assumptions=[SIZES])
prop('C16', [Unit('read.cpp', 'spec_C16_', FUNC)] + kinds('read.cpp', 'spec_C16_', FUNC, only=('-DKIND_TRIVIAL', '-DKIND_NUMBER=double')), note='Any input of any length, each character and item extraction succeeding, ending or failing, for arbitrary delimiters and target containers. Repeated for items that are trivially copyable and for numbers.', assumptions=['items are read by their own extraction operator, which consumes exactly the item'])

prop('C17', [Unit('binary_word.cpp', 'spec_C17_(?!subword_inside)', FUNC), Unit('binary_word.cpp', 'spec_C17_subword_inside', FUNC, modes=('weaken', 'exact')), Unit('binary_word.cpp', 'spec_C17x_', FUNC, modes=('exact',))], note='Words of any length: pairs that differ at an arbitrary position or extend one another, occurrences at any position, every edit at an arbitrary bit; and all pairs of words of up to three bits against direct definitions.', assumptions=[SIZES])

prop('C18', [Unit('binary_word.cpp', 'spec_C18_', FUNC), Unit('binary_word.cpp', 'spec_C18x_', FUNC, modes=('exact',))], note='Printing of words of any length on a stream in any formatting state; reading from every text of up to five digits or three items followed by any character, the end or a failure, directly and from strings.', assumptions=[SIZES, 'the texts read are bounded as the note says'], level='other')

prop('C19', [Unit('handle.cpp', 'spec_C19_', ALL)], note='Every way to make, copy, assign, convert, cast and access a handle, over objects with arbitrary values: a class, a class derived from it that has a second interface, an unrelated class, and a wrapped class.', assumptions=['the clone, _copy and _move operations of the managed classes copy the object'])

prop('C20', [Unit('facade.cpp', 'spec_C20_', ALL)], note='Random access and forward facades over mutable elements, constant elements and values, at arbitrary positions; pairs of arbitrary positions.', assumptions=['the core operations of the iterator type are consistent with its positions'])

prop('C21', [Unit('variant.cpp', 'spec_C21_', ALL)], note='Every number of alternatives from 0 to 16, every code of the code type (int, unsigned, short, char, unsigned char, enumerations), codes of the alternatives in several orders and spacings; visitors with value, reference and no result and visitors that throw.')

prop('C22', [Unit('randomiser.cpp', 'spec_C22_', ALL)], note='Integer and real randomisers of five and three value types with arbitrary bounds: several draws, copies, randomisers in alternation, use and destruction through the interface; the standard engine and distributions are modelled by their arguments and state.', assumptions=['std::random_device gives entropy; the standard distributions are uniform on the interval they are given'])
prop('C23', [Unit('stopwatch.cpp', 'spec_C23_', ALL)], note='All histories of up to three clicks and restarts after creation, copies and chained calls, for eight units, with arbitrary clock readings: steady clocks never go back, others do anything.', assumptions=['clock readings are below 2^61 nanoseconds', 'counts fit their representation'])

prop('C24', [Unit('trace.cpp', 'spec_C24_', ALL, flags=('-DENABLE_STACK_TRACE',), modes=('weaken','pinned','exact')), Unit('trace.cpp', 'spec_C24_', ALL)], note='Any number of captured frames up to the buffer, each found or not by dladdr, with or without a symbol name, demangled or not; tracing enabled and disabled, debug and release.', assumptions=['backtrace, backtrace_symbols, dladdr and __cxa_demangle behave as documented, and backtrace_symbols does not run out of memory'])

prop('C25', [Unit('macros.cpp', 'spec_C25_', ALL)], note='Every macro with conditions of type bool, integer, pointer and class types, compound conditions, and as the only statement of an if; arbitrary error texts; debug and release builds.')

prop('C26', [Unit('testmacros.cpp', 'spec_C26_', ALL)], note='Every macro, with arbitrary values and comparison outcomes, arguments containing operators of low precedence, and expressions that throw nothing, the expected exception, an exception derived from it, another standard exception, a number or an object of any class.', assumptions=['the number of failures does not overflow'])

prop('C27', checks=[witness.files('traits.cpp')], level='other', technique=WIT, note='Every trait, alias and concept over all pairs of some eighty types (builtin, class, const, reference, pointer, abstract, move-only, indestructible), all 1024 patterns of five types among four, callables times arguments times results, and types that have one operator each; g++ and clang++, debug and release.', assumptions=['the type traits of the standard library'])

prop('C28', [Unit('range.cpp', 'spec_C28_', ALL)], note='Ranges of any length and their iterators, at an arbitrary position.', assumptions=[SIZES])

prop('C29', [Unit('tuple.cpp', 'spec_C29_', ALL)], checks=[witness.files('tuple.cpp')], note='Pairs and tuples of two to six components as lvalue, constant lvalue and rvalue; values, identities and result types.')

prop('C30', [Unit('writable.cpp', 'spec_C30_', ALL)], note='Objects of classes with a write operation, own or inherited, virtual or not, through every reference and pointer type; writers directly, through the interface, and held by handles; the text of values of arbitrary types as a string.', assumptions=['the write operations called are those of the user'])

USE = 'type-level witnesses: headers, explicit instantiations and calls compiled by g++ and clang++ and never run, and the symbols the objects define and need'
prop('C31', checks=[witness.headers, witness.uses], level='other', technique=USE, note='Every header as the only include, twice, and in two source files; every public class template instantiated as a whole and every public operation called, for numbers, strings, nested containers and classes with no more than the operation needs; g++ and clang++, debug and release.', assumptions=['ordinary argument types are those used in drivers/use'])

prop('C32', [Unit('macros.cpp', 'spec_C32_', ALL)], note='Any number of visits of a site (the number of reports), all patterns of up to three conditional visits, several sites in one scope; arbitrary messages.')

prop('C33', [Unit('complement.cpp', 'spec_C33_', FUNC), Unit('complement.cpp', 'spec_C33x_', FUNC, modes=('exact',))], level='other', note='Nothing excluded below any n; all below any m excluded up to any n; and every strictly increasing array of indices below every n up to 5 and below 7; every stretch of excluded indices below 20 and regular patterns up to 40.', assumptions=[SIZES, 'other arrays and bounds than those in the note are not covered'])

EFF = 'effect analysis over the syntax tree: variables of static and thread storage, their constancy and users, and references to global state'
prop('C35', checks=[statics.effects], technique=EFF, note='Every variable of static or thread storage duration and every function definition of the headers (templates as written), sources and macro expansions, in debug, release and traced builds.', assumptions=['functions of the standard library other than those listed as using global state do not share state between distinct objects'])

NA = {
    'C34': 'Uniformity of the generated numbers is a statistical statement about the distribution of run-time values of the standard library engine; no static argument over this source bears on it.',
}
