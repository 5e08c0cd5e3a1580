"""The table of the checks: harness, compiler flags and what the manifest says."""

A_STATE = 'ASan and the forked workers see memory errors as failures; element and key types are those of harness/elems.hpp'
CHECKS = {}


def check(pid, harness, technique, note, **kw):
    CHECKS[pid] = dict(harness=harness, technique=technique, note=note, **kw)


check('C01', 'c01_map', 'stateful model-based property testing against an ordered dictionary (std::map), shrinking; libFuzzer on the same property in the thorough tier',
      'Sampled operation histories under ASan; every lookup result and both directions of traversal compared after the steps. Trusts std::map and the harness.')
check('C02', 'c02_set', 'stateful model-based property testing against an ordered set (std::set), shrinking; libFuzzer in the thorough tier',
      'Sampled operation histories under ASan; every lookup result and both directions of traversal compared after the steps. Trusts std::set and the harness.')
check('C03', 'c03_rbtree', 'stateful model-based property testing against an ordered multimap of identities, shrinking; libFuzzer in the thorough tier',
      'Sampled histories with many duplicates under ASan; order, multiset of records and bounds compared after the steps.')
check('C04', 'c04_balance', 'stateful property testing of an invariant (height, links, comparison counts), shrinking; libFuzzer in the thorough tier',
      'Sampled histories up to some thousand records; the height is measured over the public node links of rbtree, of map and set by the number of comparisons.')

SM = 'stateful model-based property testing against %s, shrinking; libFuzzer in the thorough tier'
check('C05', 'c05_vector', SM % 'a plain sequence (std::vector<int>)',
      'Sampled operation histories of two vectors under ASan, five element types; every accessor compared after every step. Random access ranges are inserted, single pass ones only assigned, as the code asks for.')
check('C06', 'c06_fixed_vector', SM % 'a plain sequence cut off at N elements',
      'Sampled operation histories of two fixed_vectors of eight capacities under ASan and with guards around the objects; every accessor compared after every step.')
check('C07', 'c07_list', SM % 'sequences of (value, identity)',
      'Sampled operation histories of two lists under ASan, five element types; both directions read after every step. erase(first, last) has a known finding which the existing tests pin down.')
check('C08', 'c08_forward_list', SM % 'sequences of (value, identity)',
      'Sampled operation histories of two lists under ASan, five element types; members which are declared but not defined (resize, remove, unique, merge, sort) are not part of it.')
check('C09', 'c09_backward_list', SM % 'sequences of (value, identity)',
      'Sampled operation histories of two lists under ASan, five element types; the tail is checked through back(), before_end() and the next push_back.')
check('C10', 'c10_lazy_queue', SM % 'sequences of (value, identity) and a count of the kept nodes',
      'Sampled operation histories of two queues under ASan, five element types; calls of operator new and delete counted in every step. Whether swap exchanges the kept nodes is left open.')

check('C11', 'c11_sorted_vector_map', SM % 'an ordered dictionary (std::map)',
      'Sampled operation histories under ASan; erase, swap and range insertion are declared but not defined and not part of it.')
check('C12', 'c12_vector_map', SM % 'an association list in insertion order',
      'Sampled operation histories of two maps under ASan; the inherited vector interface is used where it keeps the keys unique.')
check('C13', 'c13_bitset', SM % 'an array of bits',
      'Sampled operation histories of bitsets of many sizes (0 to several words) under ASan and with guards around the objects; every read accessor compared after every step; positions are below the size.')
check('C14', 'c14_bitset_conv', 'round trip and model-based property testing (strings, unsigned long, sizes against an array of bits), shrinking; libFuzzer in the thorough tier',
      'Sampled strings, numbers and size pairs; conversions between bitsets of different sizes and relational operators.')
check('C15', 'c15_array', SM % 'a plain C array',
      'Sampled operation histories of arrays of several sizes including 0 under ASan and with guards around the objects.')
check('C16', 'c16_lifetime', 'stateful property testing of an invariant (registry of live objects and blocks) over the histories of all containers, shrinking; libFuzzer in the thorough tier',
      'Sampled operation histories under ASan with an element type which registers its life. Divergences of the contents alone belong to C01 to C12 and end a case without a verdict.', parts=4)
check('C17', 'c17_memory', 'stateful property testing of an invariant (calls of operator new and live blocks) over the histories of all containers, shrinking; libFuzzer in the thorough tier',
      'Sampled operation histories and uses of algorithms with calls of the replaced operator new counted. The bounds on vector growth are those of DESIGN.md.', parts=4)
check('C18', 'c18_stability', 'stateful property testing of an invariant (held iterators, addresses and nodes) over the histories of all containers, shrinking; libFuzzer in the thorough tier',
      'Sampled operation histories under ASan in which iterators, addresses and blocks are held over many steps.', parts=4)
AM = 'differential property testing of the algorithms against %s over generated sequences, four iterator kinds, shrinking; libFuzzer in the thorough tier'
check('C21', 'c21_algo_read', AM % 'naive loops over the specification',
      'Sampled short sequences with few values, so that matches, ends and empty ranges are all frequent; calls of the predicate counted.')
check('C22', 'c22_algo_write', AM % 'naive loops over the specification',
      'Sampled short sequences; every element outside the written range is compared as well.')
check('C23', 'c23_algo_order', AM % 'the mathematical definition on sorted and unsorted sequences',
      'Sampled short sequences with duplicates; several orders; comparisons counted where the code promises a logarithm.')
check('C19', 'c19_copies', 'stateful metamorphic property testing: a copy, its source and a container filled the ordinary way must behave alike, shrinking; libFuzzer in the thorough tier',
      'Sampled histories of three containers of one kind under ASan; all copyable kinds. Failures of ordinary operations without any copy belong to C01 to C15 and end a case without a verdict.')
check('C20', 'c20_swap', 'stateful metamorphic property testing: swapped containers and ones filled the ordinary way must behave alike, shrinking; libFuzzer in the thorough tier',
      'Sampled histories of three containers of one kind under ASan; all kinds with a defined swap.')
check('C24', 'c24_helpers', 'property testing against the definitions, with independent random truth tables for the operators, shrinking; libFuzzer in the thorough tier',
      'Sampled values, types from a fixed list; distances up to 2^61.')
check('C25', 'typegen', 'generated programs: random types as trees with the traits computed from the tree, compiled under several compilers and standards, shrinking over the tree',
      'Sampled types of bounded depth; decided by static assertions of g++ and clang++; the oracle is itself asserted against the std traits.', module='typegen', fuzz=False)
check('C27', 'c27_equality', 'metamorphic property testing: pairs of containers brought to equal or nearly equal contents by different histories, shrinking; libFuzzer in the thorough tier',
      'Sampled pairs of histories; element types with an == coarser than their bytes among them.')
check('C28', 'c28_alias', 'differential property testing: two containers with the same history, one given references to its own elements, the other copies, shrinking; libFuzzer in the thorough tier',
      'Sampled histories under ASan; assign(n, element of itself) and ranges of the container itself are outside of the interface.')
check('C29', 'c29_iterators', 'stateful property testing of an invariant (position of iterators under random walks), shrinking; libFuzzer in the thorough tier',
      'Sampled containers and walks of four iterators; all containers with iterators.')
check('C26', 'headergen', 'generated programs: random headers, orders, translation units and configurations, digests of their results compared between all of them, shrinking',
      'Sampled programs of up to three translation units; two compilers, nine standards. Trusts the compilers.', module='headergen', fuzz=False)
check('C30', 'nsgen', 'generated programs: uses of the library over types of other namespaces which declare functions of the same names, digests compared with the same uses of plain types, shrinking',
      'Sampled programs; two compilers, nine standards. swap is left to the customization of the element type. Trusts the compilers and the standard containers.', module='nsgen', fuzz=False)
check('C31', 'c31_alignment', 'differential property testing: the same history on containers of elements of generated size and alignment, at every allowed address, and on containers of int, with address invariants, shrinking; libFuzzer in the thorough tier',
      'Sampled histories under ASan, 16 element types; alignments up to that of max_align_t, which is what operator new promises.', parts=8)
check('C32', 'membergen', 'generated programs: assertions on the types of all members of containers of random element types, keys and comparisons, expected types computed from the arguments, shrinking to one assertion',
      'Sampled type arguments of bounded depth; decided by static assertions of g++ and clang++, C++11 to C++20.', module='membergen', fuzz=False)
check('C33', 'reqgen', 'generated programs: uses of the library on types which have only the operations these uses ask for, results compared with those for a type which has everything, shrinking',
      'Sampled programs; the operations asked for are those of the C++ standard and, of keys, == besides the order; bounds and distance take random access iterators. Two compilers, nine standards.', module='reqgen', fuzz=False)
check('C34', 'wordgen', 'differential property testing over platforms: generated programs built for 32 and for 64 bits must have the same digests, shrinking over uses and options',
      'Sampled programs; 32 bits are i386 without a standard library, with a run time of its own which looks for misuse of the heap. Two compilers, nine standards.', module='wordgen', fuzz=False)
check('C35', 'c35_threads', 'property testing of schedules: random scripts of threads which read shared containers and change their own, under ThreadSanitizer and with read-only memory, results compared with those of one thread, shrinking',
      'Sampled histories and scripts of two or three threads; data races are found by ThreadSanitizer from the order of synchronization and not only if they strike.', fuzz=False, san=['-fsanitize=thread'], flags=['-DPBT_THREADS'])
check('C36', 'c36_work', 'property testing of cost: random histories of containers of counting elements and random ranges, operations on elements within the bound for the sizes at hand; CPU time of thousands of operations on long containers, shrinking; libFuzzer in the thorough tier',
      'Sampled histories and ranges; the bounds leave a constant factor on containers and are those of the C++ standard for algorithms. CPU time (some 20 times what is needed now) only shows work of a longer order on containers of 24000 elements.')
check('C37', 'buildgen', 'differential property testing over builds: the generated histories of twenty other checks in optimised builds of two compilers, with patterns in uninitialized variables, and with traps for undefined behaviour, against the models, shrinking',
      'Sampled histories, several builds by two compilers for one platform. UBSan without its checks of alignment and object size, which the design of the headers of trees and lists does not pass.', module='buildgen', fuzz=False)
check('C38', 'c38_capacity', 'property testing at and beyond the 32-bit limits against arithmetic models: huge containers of elements known by their addresses, counts cut off by the elements, computed ranges, long histories on a small stack, shrinking',
      'Sampled sizes around 2^31 and 2^32 and short histories near the end of such containers; memory is reserved, not used (bitsets excepted). Lists of that length are not built: only that the counts are not cut short.',
      san=[], flags=['-O2', '-fno-optimize-sibling-calls'], fuzz=False)
