#!/usr/bin/env python3
# writes properties.jsonl
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          'mechanism': [dict(name=a, where=b) for a, b in mech],
                          'observe_at': list(observe), 'hook_needed': None}})

HI = ['histories', 'inputs']
prop('C01', 'map behaves as an ordered dictionary with unique keys',
  'After any sequence of insertions (single, range, operator[]), erasures by key, copies, assignments and clears, a map holds exactly the keys inserted and not erased since, each once, with the value last stored for it (insert never overwrites), and iterates over them in the order of its comparison, forwards and backwards. '
  'The results of insert, erase(key), find, count, at, operator[], empty, lower_bound, upper_bound and equal_range are those of an ordered dictionary with the same contents, for present and for absent keys, through const and non-const maps.',
  HI, 'all operation histories over all key sequences, for any strict weak order consistent with == and any copyable key and value types',
  't/test_map*.cpp run a handful of fixed sequences with integer keys; the state of the tree depends on the whole history of insertions and removals, which no fixed list covers.',
  ['ttl/map.hpp', 'ttl/rbtree.hpp'],
  [('rbtree::insert_unique / remove / find / lower_bound', 'ttl/rbtree.hpp'), ('map::upper_bound, equal_range, operator[]', 'ttl/map.hpp'), ('iterator::prev and the header sentinel', 'ttl/map.hpp')],
  [('rbtree_base::header_', 'sentinel: its parent is the root', 'ttl/rbtree.hpp')], ['begin()/end() traversal', 'lookup results'])
prop('C02', 'set behaves as an ordered collection of unique values',
  'After any sequence of insertions (single, range), erasures by value, copies, assignments and clears, a set holds exactly the values inserted and not erased since, each once, and iterates over them in the order of its comparison, forwards and backwards. '
  'The results of insert, erase(value), find, count, empty, lower_bound, upper_bound and equal_range are those of an ordered set with the same contents, for present and for absent values, through const and non-const sets.',
  HI, 'all operation histories over all value sequences, for any strict weak order consistent with ==',
  't/test_set.cpp samples a few short sequences of integers.',
  ['ttl/set.hpp', 'ttl/rbtree.hpp'],
  [('rbtree::insert_unique / remove / find / lower_bound', 'ttl/rbtree.hpp'), ('set::upper_bound, equal_range', 'ttl/set.hpp')],
  [('rbtree_base::header_', 'sentinel: its parent is the root', 'ttl/rbtree.hpp')], ['begin()/end() traversal', 'lookup results'])
prop('C03', 'rbtree keeps a sorted multiset, duplicates included',
  'After any sequence of insert_equal, insert_unique, remove, assign and clear, an rbtree holds exactly the records inserted and not removed since, traversed by next_node/prev_node in the order of their keys, equal ones in the order they were inserted. '
  'remove(key) unlinks exactly one record with an equal key and returns it (null and no change when there is none); find returns a record with an equal key or end(); lower_bound, upper_bound, equal_range and count delimit exactly the records with an equal key; insert_unique inserts only when there is none, and otherwise returns one that has it.',
  HI, 'all histories of insertions and removals with any number of duplicate keys, any strict weak order consistent with ==',
  't/test_rbtree*.cpp checks fixed insertion orders; a removal among duplicates rotates equal keys to either side depending on the history.',
  ['ttl/rbtree.hpp'],
  [('rbtree::insert_equal, insert_unique, remove, delete_min, fixup, move_left/right', 'ttl/rbtree.hpp')],
  [('rbnode::color', 'red links of a left-leaning tree', 'ttl/rbtree.hpp')], ['node traversal', 'returned nodes'])
prop('C04', 'search trees stay balanced: logarithmic height and lookup cost',
  'Whatever the history of insertions, removals (also of absent keys), copies and assignments, every path from the root of an rbtree with n records has at most 2*log2(n+1) nodes, every child points back at its parent, and every record can be reached from the root. '
  'A lookup (find, count of a map or set, lower_bound, upper_bound) in a map, set or rbtree of n records makes at most about two comparisons for each of 2*log2(n+1) nodes.',
  HI, 'all histories of insertions and removals, sorted and adversarial orders included, up to thousands of records',
  'The tests only look at small trees after insertions in a few orders; balance after removals needs every interleaving of insertions and removals.',
  ['ttl/rbtree.hpp', 'ttl/map.hpp', 'ttl/set.hpp'],
  [('rbtree_base::fixup, insert_rebalance, move_left, move_right, delete_min', 'ttl/rbtree.hpp'), ('rbtree::remove, preorder_copy', 'ttl/rbtree.hpp')],
  [('rbnode::color', 'red links of a left-leaning tree', 'ttl/rbtree.hpp')], ['get_root() and the public links of the nodes', 'number of calls of the comparison'])
prop('C05', 'vector behaves as a growable sequence',
  'After any sequence of constructions (of n values, of a range), push_back, pop_back, insert (single, n copies, range), erase (single, range, empty ranges included), resize, reserve, assign, clear, swap, copy and assignment, a vector has the size and the elements in the order that a plain sequence would have, and the iterators which the insertion of one element and erase return denote the position they should. '
  'Indexing, at, front, back, data and iteration all show that same sequence; size() never exceeds capacity(), and reserve(n) leaves the elements alone and makes capacity() at least n.',
  HI, 'all operation histories, positions and lengths, at and away from the moments of reallocation; any copyable element type',
  't/test_vector*.cpp runs fixed short scripts; what an operation does depends on position, length and the spare capacity left by the history.',
  ['ttl/vector.hpp'],
  [('insert / erase: moving the tail within or to a new block', 'ttl/vector.hpp'), ('reserve and growth', 'ttl/vector.hpp')],
  [('elements_, last_, end_of_elements_', 'block, end of the elements, end of the block', 'ttl/vector.hpp')], ['size, capacity, elements, returned iterators'])
prop('C06', 'fixed_vector behaves as a sequence of bounded capacity',
  'After any sequence of constructions, push_back, pop_back, insert (single, n copies, range), erase (single, range, empty ranges included), resize, assign, clear, swap, copy and assignment, a fixed_vector of capacity N (at least 1) has the size and the elements of a plain sequence which is cut off at N elements after each operation: what does not fit is dropped from the end, and push_back to a full one changes nothing. '
  'Nothing outside of its storage is ever written, and the iterators which the insertion of one element and erase return denote the position they should.',
  HI, 'all operation histories including those that overflow, for every capacity and any copyable element type',
  't/test_fixed_vector*.cpp samples a few operations, mostly below capacity; overflow in the middle of an insertion depends on position, count and fill.',
  ['ttl/fixed_vector.hpp'],
  [('insert: truncation of the moved tail and of the inserted elements', 'ttl/fixed_vector.hpp'), ('resize, assign: limits', 'ttl/fixed_vector.hpp')],
  [('last_ and the embedded storage', 'end of the elements', 'ttl/fixed_vector.hpp')], ['size, elements, returned iterators, memory around the object'])
prop('C07', 'list behaves as a doubly linked sequence',
  'After any sequence of constructions, push/pop at both ends, insert (single, n copies, range), erase (single, range), resize, assign, clear, splice (whole, single, range), merge, remove, remove_if, unique, reverse, swap, copy and assignment on two lists, each list has the elements in the order a plain sequence would have, read forwards and backwards, and size, empty, front and back agree with it. '
  'Merge and splice move the elements themselves and leave the source without them; merge is stable, and the iterators which the insertion of one element and erase return denote the position they should.',
  HI, 'all operation histories over two lists, all positions and ranges, lists of every length including 0 and 1; any copyable element type',
  't/test_list.cpp runs one script; each operation relinks up to six pointers, in ways that depend on neighbours and emptiness.',
  ['ttl/list.hpp'],
  [('node linking in insert, erase, splice, merge, unique, reverse, swap', 'ttl/list.hpp')],
  [('list head node', 'circular sentinel: next is the first, prev the last', 'ttl/list.hpp')], ['traversal in both directions, returned iterators'])
prop('C08', 'forward_list behaves as a singly linked sequence',
  'After any sequence of constructions, push_front, pop_front, insert_after (single, n copies, range), erase_after (single, range), assign, clear, splice_after (whole, single, range), reverse, swap, copy and assignment on two lists, each forward_list has the elements in the order a plain sequence would have, and empty and front agree with it. '
  'splice_after moves the elements themselves and leaves the source without them; the iterators which the insertion of one element and erase_after return denote the position they should, before_begin() included as a position.',
  HI, 'all operation histories over two lists, all positions and ranges, lists of every length including 0 and 1; any copyable element type',
  't/test_forward_list.cpp runs a few fixed scripts.',
  ['ttl/forward_list.hpp', 'ttl/slist_node.hpp'],
  [('insert_after, erase_after, splice_after, reverse', 'ttl/forward_list.hpp'), ('slist_node::reverse', 'ttl/slist_node.hpp')],
  [('head node', 'before_begin()', 'ttl/forward_list.hpp')], ['traversal, returned iterators'])
prop('C09', 'backward_list behaves as a singly linked sequence with a tail',
  'After any sequence of constructions, push_front, push_back, pop_front, insert_after (single, n copies, range), erase_after (single, range), assign, clear, reverse, swap, copy and assignment on two lists, each backward_list has the elements in the order a plain sequence would have, and empty, front, back and end() agree with it: a push_back right after any operation appends after the last element. '
  'The iterators which the insertion of one element and erase_after return denote the position they should, before_begin() included as a position.',
  HI, 'all operation histories over two lists, all positions and ranges, lists of every length including 0 and 1; any copyable element type',
  't/test_backward_list.cpp runs a few fixed scripts; whether the tail pointer is right only shows in the operation that comes next.',
  ['ttl/backward_list.hpp', 'ttl/slist_node.hpp'],
  [('tail updates in insert_after, erase_after, pop_front, reverse, swap, clear', 'ttl/backward_list.hpp')],
  [('tail_', 'the last node, or the head node', 'ttl/backward_list.hpp')], ['traversal, back(), push_back after every operation'])
prop('C10', 'lazy_queue behaves as a queue and reuses the nodes it erased',
  'After any sequence of constructions, push_front, push_back, pop_front, insert_after (single, n copies, range), erase_after (single, range), clear, cleanup, roll_head, swap, copy and assignment on two queues, each lazy_queue has the elements in the order a plain sequence would have, and empty, front, back and iteration agree with it; the iterators which the insertion of one element and erase_after return denote the position they should. '
  'Erased nodes are kept, never freed, and the following insertions take them before they allocate new ones, each kept node for one element at a time; only cleanup and destruction give kept nodes back, and they do not disturb the elements.',
  HI, 'all operation histories over two queues, with every mix of live and kept nodes; any copyable element type',
  't/test_lazy_queue.cpp runs one short script with integers.',
  ['ttl/lazy_queue.hpp', 'ttl/slist_node.hpp'],
  [('allocation from the pool, return to the pool, cleanup', 'ttl/lazy_queue.hpp')],
  [('head, tail and pool links', 'elements and kept nodes share one chain', 'ttl/lazy_queue.hpp')], ['traversal, number of allocated and freed blocks'])
prop('C11', 'sorted_vector_map behaves as an ordered dictionary with unique keys',
  'After any sequence of insertions (insert, operator[]), clears, constructions (with preallocated storage too) and copy constructions, a sorted_vector_map holds exactly the keys inserted since the last clear, each once, with the value last stored for it (insert never overwrites), and iterates over them in the order of its comparison. '
  'The results of insert, find, count, at, operator[], size, empty, lower_bound, upper_bound and equal_range are those of an ordered dictionary with the same contents, for present and absent keys (the range for an absent key is empty).',
  HI, 'all operation histories over all key sequences, across every reallocation; any strict weak order consistent with ==',
  't/test_sorted_vector_map.cpp inserts a few keys.',
  ['ttl/sorted_vector_map.hpp'],
  [('binary search lower_bound', 'ttl/sorted_vector_map.hpp'), ('insertion: shifting or reallocating', 'ttl/sorted_vector_map.hpp')],
  [('elements_, last_, end_of_elements_', 'sorted block of pairs', 'ttl/sorted_vector_map.hpp')], ['traversal, lookup results'])
prop('C12', 'vector_map behaves as a dictionary kept in insertion order',
  'After any sequence of its operations (push_back of pairs, insert, operator[], clear, reserve, pop_back, erase, and the other vector operations it offers), a vector_map holds the pairs in the order they were added, insert adding only pairs with absent keys; find returns the first pair with an equal key or end(), count the number of pairs with an equal key, and at and operator[] refer to the value of the first one. '
  'operator[] of an absent key appends a pair with a default value and of a present key changes nothing but what is assigned through it.',
  HI, 'all operation histories, with duplicate keys added by push_back, across every reallocation',
  't/test_vector_map.cpp uses a few distinct keys.',
  ['ttl/vector_map.hpp', 'ttl/vector.hpp'],
  [('linear search find', 'ttl/vector_map.hpp'), ('operator[]', 'ttl/vector_map.hpp')], [], ['traversal, lookup results'])
prop('C13', 'bitset operations are those of a fixed-size sequence of bits',
  'For every size N, a bitset<N> after any sequence of set, reset, flip (all or one bit), assignment through a bit reference (of a value or of another reference), ~, &, |, ^, &=, |=, ^= <<, >>, <<= and >>= holds the bits a plain array of N bits would hold. '
  'test, operator[], count, any, none, all (N > 0), ==, !=, to_ulong and to_ullong depend on those N bits only, however the bits beyond N came about.',
  HI, 'all sizes (0, below, at and above multiples of the word size), all bit patterns and operation histories',
  't/test_bitset.cpp looks at a few sizes and patterns; the faults sit at word boundaries and in the unused bits of the last word.',
  ['ttl/bitset.hpp'],
  [('masks of the last word, word and bit index', 'ttl/bitset.hpp'), ('bit reference', 'ttl/bitset.hpp')],
  [('bits_', 'words; the bits beyond N are unused', 'ttl/bitset.hpp')], ['test() of every position, count, any, none, all, =='])
prop('C14', 'bitset construction and conversion keep exactly the given bits',
  'A bitset<N> constructed from an integer has bit i set exactly if bit i of the integer is set and i < N; from a string, the digits up to the first one which is neither the zero nor the one character, at most n (if given) and at most N of them, give the bits, the first digit being the highest; and from a bitset<M> it has the first min(N, M) bits of it and no others. '
  'Construction and assignment never read or write outside of the objects, and what they leave in unused bits never shows.',
  ['inputs'], 'all pairs of sizes N and M, all integers, all strings, lengths and digit characters',
  't/test_bitset.cpp constructs a few bitsets from short strings and small numbers.',
  ['ttl/bitset.hpp'],
  [('bitset(unsigned long), bitset(const CharT *, ...), converting constructor', 'ttl/bitset.hpp')], [], ['test() of every position, count, memory around the object'])
prop('C15', 'array behaves as a plain array of N elements',
  'For every N, including 0, array<T,N> has size() == max_size() == N, and its indexing, at, front, back, data and iterators denote the N elements in order, each of them the same object in every view; without elements, front and back refer to its own storage. '
  'fill gives every element the value, copy and assignment copy every element, swap exchanges every element, and the comparison operators compare element by element.',
  ['inputs', 'histories'], 'all sizes and contents',
  't/test_array.cpp looks at one or two sizes.',
  ['ttl/array.hpp'], [('array members', 'ttl/array.hpp')], [], ['elements through every accessor'])
prop('C16', 'containers construct and destroy every element exactly once',
  'Under any sequence of operations, every container constructs an element only in raw storage, assigns to, copies from and destroys only elements that are alive, and destroys each constructed element exactly once. '
  'While no operation runs, the number of live element objects equals the number of elements the containers show (a fixed_vector, vector or lazy_queue keeps none alive in its spare storage), and after their destruction no element is alive and every block of memory was given back the way it was obtained.',
  HI, 'all operation histories of vector, fixed_vector, list, forward_list, backward_list, lazy_queue, sorted_vector_map, vector_map, map, set and rbtree, with elements that own resources',
  'The tests use integers and pointers almost everywhere, for which construction, destruction and leaks are invisible.',
  ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/vector_map.hpp', 'ttl/rbtree.hpp', 'ttl/map.hpp', 'ttl/set.hpp'],
  [('placement new and explicit destructor calls when moving elements', 'ttl/vector.hpp, ttl/fixed_vector.hpp, ttl/sorted_vector_map.hpp'), ('node new/delete', 'ttl/list.hpp, ttl/slist_node.hpp, ttl/rbtree.hpp')],
  [], ['registry of live elements', 'operator new/delete'])
prop('C17', 'memory is allocated only when storage for elements is needed',
  'fixed_vector, array, bitset, pair and the algorithms never allocate dynamic memory; a vector (or vector_map) holds at most one block, and its insertions, resize, assign and reserve allocate none while the result fits in its capacity; the node based containers hold exactly one block per element (lazy_queue: per element and kept node), a sorted_vector_map one per element and at most one table, and default construction of any container allocates nothing. '
  'Lookups, iteration, swap, splice, merge, reverse, removals and comparison allocate nothing, and an erased or cleared element\'s node is freed at once (lazy_queue: kept for the next insertion, which then allocates nothing).',
  HI, 'all operation histories of all containers, in terms of calls of operator new and delete',
  'No test observes allocations; constrained resources are the stated purpose of the library (README).',
  ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/rbtree.hpp', 'ttl/algorithm.hpp'],
  [('capacity checks', 'ttl/vector.hpp, ttl/sorted_vector_map.hpp'), ('node pool', 'ttl/lazy_queue.hpp')], [], ['operator new/delete'])
prop('C18', 'references and iterators to other elements survive the operations',
  'In map, set, rbtree, list, forward_list, backward_list and lazy_queue an element keeps its address and its value, and iterators to it stay valid and keep their place in the traversal, under every operation that does not remove it (insertions, removals of others, splice, merge, reverse, swap), moving along with it into another container on splice, merge and swap. '
  'In a sorted_vector_map, too, elements keep their address and value as long as they are in it. In a vector, elements before the point of insertion or removal keep their address as long as the result fits in the capacity, and swap exchanges the blocks, not the elements.',
  HI, 'all operation histories with addresses and iterators taken at any earlier point',
  'The tests do not hold on to references or iterators across operations.',
  ['ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/rbtree.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/vector.hpp'],
  [('relinking of nodes instead of copying values', 'ttl/list.hpp, ttl/rbtree.hpp')], [], ['addresses of elements, held iterators'])
prop('C19', 'copies are equal and independent; self-assignment changes nothing',
  'A container that is copy constructed, assigned or built from the range of another has the same contents as its source at that moment, whatever it held before, and leaves the source unchanged; from then on operations on one, including its destruction, never affect the other. '
  'Assigning a container to itself leaves its contents as they are.',
  HI, 'all containers with copying (vector, fixed_vector, list, forward_list, backward_list, lazy_queue, map, set, rbtree, sorted_vector_map, vector_map, array, bitset), all histories before and after the copy',
  'The tests copy a container once or twice and hardly use both afterwards.',
  ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/rbtree.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/array.hpp', 'ttl/bitset.hpp'],
  [('copy constructors, operator=, assign', 'ttl/*.hpp'), ('rbtree::preorder_copy', 'ttl/rbtree.hpp')], [], ['contents of both containers after every operation'])
prop('C20', 'swap exchanges the contents of two containers completely',
  'a.swap(b) and the swap functions give each of two containers (vector, fixed_vector, list, forward_list, backward_list, lazy_queue, array) exactly the contents the other had, for every combination of sizes, empty ones included, and swapping a container with itself changes nothing. '
  'Both are fully usable afterwards: every later operation on either acts as on a container filled in the ordinary way, and does not affect the other.',
  HI, 'all pairs of contents and sizes, all histories before and after the swap',
  'The tests swap at most one pair of non-empty containers; sentinels and tail pointers that still point into the other object only show in later operations.',
  ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/array.hpp', 'ttl/utility.hpp'],
  [('swap members: pointers to the head nodes themselves', 'ttl/list.hpp, ttl/backward_list.hpp, ttl/lazy_queue.hpp')], [], ['contents after swap and after later operations'])
prop('C21', 'non-modifying algorithms return what their definition says',
  'for_each, all_of, any_of, none_of, count, count_if, mismatch and equal (with 3 and 4 iterators), find, find_if, find_if_not, adjacent_find, search and search_n, with and without a predicate, return the result the C++ standard defines for the same range, for every range including empty ones and patterns longer than the range. '
  'They read only inside of the given ranges, never change the elements, and apply a predicate in the argument order the standard gives; for_each applies its function once to each element in order.',
  ['inputs'], 'all ranges, patterns, values and predicates, over random access and weaker iterators',
  't/test_algorithm*.cpp tries a few arrays per algorithm; partial matches, overlaps and empty patterns are what breaks.',
  ['ttl/algorithm.hpp'], [('the algorithm templates', 'ttl/algorithm.hpp')], [], ['returned iterators and values, iterator positions visited'])
prop('C22', 'modifying algorithms write exactly what their definition says',
  'copy, copy_n, copy_if, copy_backward, fill, fill_n, transform (unary and binary), generate, generate_n, remove, remove_if, remove_copy, remove_copy_if, replace, replace_if, replace_copy, replace_copy_if, swap_ranges, iter_swap, reverse, reverse_copy and iota leave the ranges with the contents and return the iterator that the C++ standard defines, for every range including empty ones and for the overlaps the standard permits. '
  'They write only inside of the destination range and call functions and predicates exactly as often as defined.',
  ['inputs'], 'all ranges, positions, lengths and permitted overlaps',
  't/test_algorithm*.cpp tries a few arrays per algorithm.',
  ['ttl/algorithm.hpp', 'ttl/numeric.hpp'], [('the algorithm templates', 'ttl/algorithm.hpp')], [], ['contents of the ranges and of guard elements around them, returned iterators'])
prop('C23', 'searching, merging and min/max follow the order they are given',
  'On ranges partitioned or sorted by the given order, lower_bound, upper_bound, equal_range and binary_search (with < or a given comparison), is_sorted, is_sorted_until and merge return what the C++ standard defines, among equivalent elements too: bounds lie at the ends of the run, merge is stable; lower_bound, upper_bound, equal_range and binary_search take a number of comparisons logarithmic in the length of the range. '
  'min, max and minmax (with < or a given comparison), min_element, max_element and minmax_element return an extremal element; of equivalent ones, min and max return their first argument, minmax keeps their order, and min_element and max_element return the first.',
  ['inputs'], 'all sorted ranges with any duplicates, all values, all strict weak orders, also those under which different elements are equivalent',
  't/test_algorithm*.cpp searches a few sorted arrays of distinct numbers.',
  ['ttl/algorithm.hpp'], [('binary searches, merge, min/max templates', 'ttl/algorithm.hpp')], [], ['returned iterators and values, identities of equivalent elements'])
prop('C24', 'pair, function objects, numeric and size helpers compute their definitions',
  'pair holds its two values unchanged through construction (default: value-initialized), conversion from other pairs, copy, assignment, swap and make_pair, and == and != compare both; ttl::swap exchanges two values; less, greater, equal_to and not_equal_to return what the operator they are named for returns, select_first, select_second and select_same refer to the very object; accumulate folds a range from the left, distance and advance count elements, and countof is the number of elements of an array. '
  'None of them allocates or changes its const arguments.',
  ['inputs'], 'all argument values of the types they support',
  't/ has one or two assertions per helper.',
  ['ttl/utility.hpp', 'ttl/functional.hpp', 'ttl/numeric.hpp', 'ttl/ttl.hpp'], [('the templates', 'ttl/utility.hpp, ttl/functional.hpp, ttl/numeric.hpp')], [], ['returned values'])
prop('C25', 'type traits classify and transform types as the standard does',
  'For every type built from fundamental types, pointers, references, arrays, classes, enums, unions, functions, pointers to members and cv-qualifiers, is_same, is_const, is_volatile, is_void, is_integral, is_floating_point, is_arithmetic, is_fundamental, is_pointer and is_array have the value, and remove_const, remove_volatile, remove_cv and remove_reference the type, of the standard trait of that name (char8_t, char16_t, char32_t, extended integer types and nullptr_t aside). '
  'is_signed and is_unsigned hold exactly for the standard signed and unsigned integer types and the character types of that signedness (not for floating point types or bool), is_scalar for arithmetic types and pointers, whatever their cv-qualification.',
  ['programs', 'inputs'], 'all types of the grammar, nested to any depth, as far as the standard trait and the library trait are defined on them',
  't/test_type_traits*.cpp asserts a few types for some of the traits.',
  ['ttl/type_traits.hpp'], [('the specializations', 'ttl/type_traits.hpp')], [], ['values and types in generated programs'])
prop('C26', 'headers compose: any include order, subset, standard and configuration',
  'A program that includes any subset of the headers of the library in any order, alone or in several translation units, and uses what they declare compiles and links without conflicts under every language standard from C++98 to C++20, without exceptions and RTTI, and behaves the same in all these configurations. '
  'The out-of-line configuration of the red-black tree (RBTREE_INLINEABLE, RBTREE_INCLUDE_INLINEABLE) links and behaves as the inline one, and a program may define its own macro countof before the headers.',
  ['programs', 'configurations'], 'all subsets and orders of the headers, all standards, one or more translation units, optimisation levels, both tree configurations',
  'The tests each include the headers in one order and are built with one standard.',
  ['ttl/ttl.hpp', 'ttl/algorithm.hpp', 'ttl/utility.hpp', 'ttl/rbtree.hpp', 'ttl/map.hpp', 'ttl/types.hpp', 'Makefile'],
  [('include guards and forward declarations between the headers', 'ttl/*.hpp'), ('RBTREE_INLINEABLE', 'ttl/rbtree.hpp')], [], ['compilation, linking and output of generated programs'])
prop('C27', 'equality operators compare sizes and elements, nothing else',
  'For two containers of the same type with equality operators (vector, fixed_vector, list, forward_list, backward_list, map, set, array, bitset, vector_map), a == b holds exactly if both have the same number of elements and equal elements in the same order (also if a and b are one object), and a != b is its negation. '
  'The result does not depend on the history, capacity, tree shape or unused storage of either, and comparing changes nothing.',
  HI, 'all pairs of contents, in particular prefixes of each other, empty ones and pairs differing in one place, reached by different histories',
  'The tests compare containers a few times, mostly equal ones of the same size.',
  ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/array.hpp', 'ttl/bitset.hpp', 'ttl/algorithm.hpp'],
  [('operator== by ttl::equal over both ranges', 'ttl/*.hpp, ttl/algorithm.hpp')], [], ['result of the operators'])
prop('C28', 'arguments may refer to elements of the container itself',
  'push_back, push_front, insert, insert_after, resize, operator[], insert of maps and sets, remove and erase by key give the same result when the value argument is a reference to an element of the same container as when it is a copy of it, also when the operation reallocates, moves or erases that element. '
  'This holds for vector, fixed_vector, list (remove included), forward_list, backward_list, lazy_queue, map, set, sorted_vector_map and vector_map.',
  HI, 'all containers, all positions of the element and of the operation, with and without spare capacity',
  'No test passes an element of the container as an argument.',
  ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/rbtree.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/vector_map.hpp'],
  [('copy before the elements are moved', 'ttl/vector.hpp, ttl/fixed_vector.hpp'), ('deferred deletion in remove', 'ttl/list.hpp')], [], ['contents after the operation, memory errors'])
prop('C29', 'iterators obey the laws of their category in every container',
  'In every container, walking an iterator by any sequence of steps (++ and --, prefix and postfix, and +, -, +=, -=, [], < where offered) from any position within [begin, end] keeps it at the element that the sequence of the steps says; --end() is the last element, and two iterators are equal exactly if they denote the same position. '
  'const and non-const iterators, begin/cbegin and end/cend, * and ->, and conversion from iterator to const_iterator denote the same elements, and writes through a non-const iterator show in every view.',
  HI, 'all containers, sizes and step sequences, containers reached by any history',
  'The tests iterate forward from begin to end.',
  ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/array.hpp', 'ttl/slist_node.hpp'],
  [('iterator classes', 'ttl/*.hpp'), ('rbtree next_node, prev_node and the header sentinel', 'ttl/rbtree.hpp')], [], ['elements denoted after each step'])

prop('C30', 'names declared in the namespaces of the arguments do not interfere',
  'The algorithms, helpers and containers work with iterators, elements, keys, comparisons and predicates of any namespace, the standard library\'s among them, and give the same results as with plain types. '
  'Functions which such a namespace declares under the names of the library\'s own (find, copy, equal, min, merge, lower_bound and the like), fitting as well or better, are never called by the library, and do not make its calls ambiguous; only operators and swap are taken from there, and a swap for every type, as std has one, does no harm.',
  ['inputs', 'configurations'], 'all sets of declared names, argument types, include orders and language standards',
  'The tests use pointers, the containers of the library and integers in the global namespace, where no other function of the name can be found.',
  ['ttl/algorithm.hpp', 'ttl/utility.hpp', 'ttl/numeric.hpp', 'ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/array.hpp', 'ttl/list.hpp', 'ttl/map.hpp', 'ttl/set.hpp'],
  [('qualified calls between the algorithms', 'ttl/algorithm.hpp'), ('ttl::equal in the comparison operators', 'ttl/vector.hpp')],
  (), ['compilation of a use', 'results of the uses'])
prop('C31', 'elements of every size and alignment are stored at aligned addresses, intact',
  'In every container (vector, fixed_vector, array, list, forward_list, backward_list, lazy_queue, map, set, sorted_vector_map, vector_map) every element, and every temporary the library makes of one, lies at an address which its type\'s alignment asks for (up to the alignment of max_align_t), wherever the container itself lies within the limits of its own alignment. '
  'The size and alignment of the element type influence nothing else: the same operations have the same results for all of them, and nothing outside of the container object and its own blocks is written.',
  HI, 'all element types by size and alignment, all addresses of the container, all histories',
  'The tests use int elements and let the compiler place the containers; misplaced elements go unnoticed on x86 but for types like long double or SSE vectors.',
  ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/array.hpp'],
  [('bytes_, the storage of fixed_vector', 'ttl/fixed_vector.hpp'), ('new char[] and placement new of the elements', 'ttl/vector.hpp'), ('nodes deriving from link nodes', 'ttl/list.hpp, ttl/slist_node.hpp, ttl/map.hpp')],
  (), ['addresses of elements', 'contents and results'])
prop('C32', 'member types name what the members return; const access stays const',
  'In every container (and pair, rbtree and the function objects), value_type, reference, const_reference, pointer, const_pointer, iterator, const_iterator, size_type, difference_type, key_type, mapped_type, key_compare and the member types of the iterators are the types the C++ standard gives them, whatever the element, key and comparison types, and dereferencing, element access, begin/end, insert, erase and the searches return them: the iterator from a mutable container, the const_iterator from a const one. '
  'iterator converts to const_iterator and not back; nothing reached through a const container or const_iterator can be assigned, and members that change the container cannot be called on a const one. The algorithms return the iterator types they were given.',
  ['programs', 'inputs'], 'all element, key, mapped and comparison types, nested to any depth',
  'The tests use the members with one element type each and name few of the member types.',
  ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/array.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/rbtree.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/vector_map.hpp', 'ttl/utility.hpp', 'ttl/functional.hpp', 'ttl/algorithm.hpp'],
  [('typedefs of the classes and of their iterators', 'ttl/*.hpp'), ('pairs of const and non-const members', 'ttl/*.hpp')], (), ['types in generated programs'])
prop('C33', 'operations ask no more of the element type than the standard does',
  'Every container operation and algorithm compiles and works with element types, predicates, comparisons and iterators that have only what the C++ standard asks for in that operation: copies alone suffice for filling, reading, swapping and destroying containers and for inserting into lists; default construction is asked for by resize(n), operator[] of maps and the like only, assignment by moving elements in vectors, == and < where they define the result and in the standard\'s order of operands (keys need == in addition to their order; bounds and distance need random access iterators). '
  'Nothing else the type declares is used: not its own operator new or delete, explicit or template constructors or other operators, nor is == or < required to return bool itself. The results are the same as for a type that has everything.',
  ['programs', 'inputs'], 'all combinations of operations, with all types which just meet their requirements',
  'The tests use int and a few classes which have all operations.',
  ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/vector_map.hpp', 'ttl/algorithm.hpp', 'ttl/numeric.hpp', 'ttl/utility.hpp'],
  [('::new with the copy constructor', 'ttl/*.hpp'), ('resize', 'ttl/vector.hpp, ttl/fixed_vector.hpp'), ('operands of == and <', 'ttl/algorithm.hpp')], (), ['compilation and results of generated programs'])
prop('C34', '32-bit and 64-bit programs behave the same',
  'For a target whose pointers, size_t and long have 32 bits every container, algorithm, bitset and trait compiles and gives the same results as where they have 64: bitsets of every size with their construction from and conversion to unsigned long long, shifts and conversions between sizes, containers of 64-bit keys and elements, whose alignment may be smaller than their size, and traits of all number types. '
  'size_t and ptrdiff_t are the compiler\'s own types there too, nothing is shifted by the width of its type, and no block of memory is overrun, lost or freed twice.',
  ['programs', 'configurations', 'inputs'], 'all programs, both word sizes, all compilers, standards and optimisation levels',
  'The tests are built for the 64 bits of the host only; the branches for a 32-bit long are never compiled.',
  ['ttl/bitset.hpp', 'ttl/types.hpp', 'ttl/type_traits.hpp', 'ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/rbtree.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/algorithm.hpp', 'ttl/numeric.hpp', 'ttl/utility.hpp'],
  [('branches on __SIZEOF_LONG__', 'ttl/bitset.hpp'), ('size_t and ptrdiff_t', 'ttl/types.hpp'), ('traits of the integer types', 'ttl/type_traits.hpp')], (), ['digests of the results for both word sizes'])
prop('C35', 'threads may share what they only read, and nothing else is shared',
  'Operations which read a container (all const members, and begin, end, find, bounds, front, back, [] and the like of sequences, iteration, comparison, copying from it, algorithms over its range) write to nothing, neither to the container nor to its elements or to memory shared with other containers; so any number of threads may read one container together. '
  'Distinct containers, even ones with a common past (copies, swapped, spliced, of one type), and algorithms over distinct ranges share no hidden state: threads which change each their own, and threads which write to different elements of one container, do not interfere and get the results they get alone.',
  ['schedules', 'histories', 'inputs'], 'all schedules of all threads, containers and scripts of reading operations and of operations on containers of their own',
  'No test has a second thread, and a cache or a shared node does no harm with one.',
  ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/rbtree.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/vector_map.hpp', 'ttl/array.hpp', 'ttl/bitset.hpp', 'ttl/algorithm.hpp'],
  [('const members of the containers', 'ttl/*.hpp'), ('root_edge, which casts constness away', 'ttl/rbtree.hpp'), ('link nodes and end nodes', 'ttl/list.hpp, ttl/slist_node.hpp')], (), ['data races', 'writes while reading', 'results of the threads'])
prop('C36', 'operations do only the work their size asks for',
  'Operations on elements (constructions, assignments, comparisons) are bounded by the sizes of what an operation works on: at most linear in the elements inserted or given and, in vectors, those behind the place (or all, where memory grows); only linear in the inserted ones in lists, and none at all for splice, reverse and the member swap of everything but array and fixed_vector; keyed lookups, insertions and erasures of map, set and sorted_vector_map compare a number of times logarithmic in the size; comparing two containers compares at most the elements of the shorter once, copying and assignment compare none. '
  'Traversal, begin, end and empty operate on no elements. Algorithms keep to the counts of the C++ standard (2n for minmax_element). Apart from elements, the time of pushes and pops at the ends of lists and queues (and of vectors with reserved memory), insertion and erasure at a known place of a list, splices of whole lists or single elements, member swap, begin, end, front and back does not grow with the length, nor that of lookups in trees more than logarithmically, however the tree was built. (A vector without spare memory grows by one, and ranges are assigned to it element by element: that is as designed.)',
  ['histories', 'inputs'], 'all histories of all containers with any elements, all ranges and arguments of the algorithms, all lengths',
  'The tests look at results, which are the same if an operation walks, copies or compares everything; and their containers are too short to show it in time.',
  ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/slist_node.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/rbtree.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/vector_map.hpp', 'ttl/array.hpp', 'ttl/algorithm.hpp', 'ttl/utility.hpp'],
  [('insertion and erasure in blocks', 'ttl/vector.hpp, ttl/fixed_vector.hpp'), ('the tail of the lists', 'ttl/slist_node.hpp, ttl/backward_list.hpp, ttl/lazy_queue.hpp'), ('rebalancing', 'ttl/rbtree.hpp'), ('loops of the algorithms', 'ttl/algorithm.hpp')], (),
  ['counts of constructions, assignments, comparisons and calls', 'CPU time'])
prop('C37', 'the behaviour is defined and does not depend on the build',
  'Every operation in its domain gives the same result whichever compiler and optimisation level the program is built with, and whatever memory and variables held before: no result rests on the order in which arguments are evaluated, on objects being accessed as objects of other types, on values which are not set, on functions which return nothing, on overflows or shifts by the width of a type, or on anything else whose behaviour the language leaves undefined; '
  'nothing outside of the arrays and objects at hand is read, even where it would not matter. (Headers of trees and lists are seen as nodes which are never touched as such: that is as designed.)',
  ['builds', 'histories', 'inputs'], 'all compilers and options, with all histories of all containers and all inputs of the algorithms',
  'The tests are built once, without optimisation to speak of, and look at what that build does.',
  ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/slist_node.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/rbtree.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/vector_map.hpp', 'ttl/array.hpp', 'ttl/bitset.hpp', 'ttl/algorithm.hpp', 'ttl/numeric.hpp', 'ttl/utility.hpp', 'ttl/functional.hpp'],
  [('raw storage and placement new', 'ttl/vector.hpp, ttl/fixed_vector.hpp, ttl/lazy_queue.hpp'), ('words and their last bits', 'ttl/bitset.hpp'), ('casts between nodes and their headers', 'ttl/rbtree.hpp, ttl/list.hpp')], (),
  ['results of generated histories in every build', 'undefined behaviour'])
prop('C38', 'sizes are limited by memory only',
  'Sizes, counts, positions and distances beyond 2^31 and 2^32 work as smaller ones do wherever size_t has 64 bits: vector and fixed_vector of so many elements (or of so many bytes) keep exactly the elements they should at their places through construction, insertion, erasure, resize, reserve and assign; the counted constructions, insertions, assign and resize of lists and queues make as many elements as they are asked for; bitsets of more than 2^32 bits set, shift, count and compare their bits; algorithms over ranges of more than 2^32 elements return the places, counts and distances their definitions say. '
  'The stack which an operation needs does not grow with the number of elements (in trees no more than the height): containers of any length can be filled, copied, compared, rearranged and destroyed on a small stack. (The capacity of a fixed_vector is an unsigned int, a sorted_vector_map holds fewer than 2^32 elements: that is as designed.)',
  ['inputs', 'histories'], 'all sizes, counts, positions and lengths of containers and ranges up to what fits into the memory',
  'The tests work with a handful of elements; a counter of 32 bits or a recursion per element shows with millions of them only.',
  ['ttl/vector.hpp', 'ttl/fixed_vector.hpp', 'ttl/list.hpp', 'ttl/forward_list.hpp', 'ttl/backward_list.hpp', 'ttl/lazy_queue.hpp', 'ttl/slist_node.hpp', 'ttl/map.hpp', 'ttl/set.hpp', 'ttl/rbtree.hpp', 'ttl/sorted_vector_map.hpp', 'ttl/bitset.hpp', 'ttl/algorithm.hpp', 'ttl/numeric.hpp', 'ttl/utility.hpp'],
  [('insertion and erasure in blocks', 'ttl/vector.hpp, ttl/fixed_vector.hpp'), ('counted insertion', 'ttl/list.hpp, ttl/forward_list.hpp, ttl/backward_list.hpp, ttl/lazy_queue.hpp'), ('positions of bits', 'ttl/bitset.hpp'), ('bounds, counts and distance', 'ttl/algorithm.hpp, ttl/utility.hpp'), ('destruction and copy of trees and lists', 'ttl/rbtree.hpp, ttl/list.hpp')], (),
  ['the addresses of the living elements', 'results at and behind the 32-bit limits', 'overflow of a small stack'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
