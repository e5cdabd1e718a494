#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script only to make the text easy to edit)
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=' '.join(qtext.split())), why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=hook)))
D='code/dynamix/'
p('C01','Registration gives unique stable ids and exact lookups',
  '''After any sequence of registrations and unregistrations, every registered mixin and feature has an id which is unique in its domain, stays the same while it is registered and is the least one free at the time of registration, and lookups by id and by name (of mixins, features and type classes) return exactly what is currently registered.
  Registrations which violate the domain's naming rules (duplicate or empty names unless allowed, a type class with no match function), register something twice or into a second domain, and unregistrations of something which belongs to another domain are errors which leave everything registered as it was.
  Registering a mixin also registers those of its features which aren't registered yet.''',
  ['histories','configurations'],'every sequence of register/unregister operations over a small set of descriptions with equal, empty and distinct names, two domains, and both naming settings, up to the depth bound',
  'the unit tests run a handful of fixed registration orders; slot reuse with holes, failed registrations in between, and clashes with already reused ids depend on the history',
  [D+'domain.cpp',D+'domain.hpp'],[('basic_register_l / basic_unregister_l',D+'domain.cpp'),('register_type_class',D+'domain.cpp'),('unregister_mixin',D+'domain.cpp')],
  [('element_registry','sparse arrays by id',D+'domain.cpp')],['get_mixin_info','get_feature_info','get_type_class'])
p('C02','Equal type requests give one type with exactly the requested mixins',
  '''Without mutation rules a type request for a list of distinct registered mixins gives a type with exactly these mixins in exactly the requested order, and as long as the type lives every further request for the same list, through any entry point and through any history of other requests, gives the very same type; different lists give different types.
  Requests with duplicate, unregistered or foreign mixins, or made with another domain's mutation, are errors, and such failed requests add no types and don't change the answers of other requests.''',
  ['histories','inputs'],'all sequences of type requests (all lists over a small set of mixins, including invalid ones) interleaved with garbage collection and unregistration, up to the depth bound; both request entry points',
  'tests request a few lists in one order; identity depends on the cache contents left behind by all earlier requests, failures and collections',
  [D+'domain.cpp',D+'type_mutation.cpp'],[('get_type / create_type',D+'domain.cpp'),('type_query_map and type_set comparison',D+'domain.cpp')],
  [('type_registry','types and stored queries',D+'domain.cpp')],['domain::get_type','domain::num_types'])
p('C03','Canonical mixin order is a strict total order and decides canonical types',
  '''In a domain with canonical types, all orders in which a set of mixins can be requested or added give the same type, whose mixins are sorted by order priority, then by name, then by id.
  This canonical order is a strict total order on registered mixins for all priorities, names (including empty ones, and ones which are prefixes of or share storage with other names) and ids, and it is the order which decides how types compare.''',
  ['inputs','histories'],'all permutations of all small sets of mixins whose priorities and names are taken from a set with ties, prefixes and shared storage; all triples for the order axioms',
  'tests check one or two permutations of mixins with distinct names',
  ['code/dnmx/mixin_info.h',D+'domain.cpp',D+'type.cpp','code/dnmx/bits/sv.h'],[('dnmx_mixin_canonical_order','code/dnmx/mixin_info.h'),('canonicalize rule',D+'domain.cpp'),('type::compare',D+'type.cpp')])
p('C04','Mutation rules: every request gets the fixpoint of the current rules',
  '''The type given for a request is the one obtained by dropping mixins marked as dependencies and applying all currently added rules in the order of their priority and then name, repeated until nothing changes; if this doesn't settle within the allowed number of rounds (at most one per rule and at most five), or a rule fails, the request fails without creating a type or affecting later requests.
  Adding a rule several times requires removing it as many times, and removing a rule which isn't added does nothing.
  No request made after a rule is added or removed is answered by what the previous rules would have given.''',
  ['histories','configurations','inputs'],'all sequences of adding and removing rules (adders, removers, substituters, cyclic, failing, throwing) and of type requests, up to the depth bound',
  'tests exercise a few rule sets, one at a time, with few requests after changing them; stale answers need a specific order of requests and rule changes',
  [D+'domain.cpp',D+'mutation_rule_info.hpp'],[('apply_mutation_rules_l',D+'domain.cpp'),('add_mutation_rule / remove_mutation_rule',D+'domain.cpp')],
  [('mutation_rules','rules with reference counts',D+'domain.cpp'),('type_queries','stored answers',D+'domain.cpp')],['domain::get_type'])
p('C05','Types in use survive; unused ones are reclaimed without stale answers',
  '''The number of objects reported by a type is always the exact number of live objects of that type, a type with objects is never reclaimed by garbage collection, and every type without objects is.
  After garbage collection or after unregistering a mixin, no request is answered with a reclaimed type: types with an unregistered mixin are gone, all others remain and keep answering the requests they answered before.''',
  ['histories'],'all sequences of type requests, object creation, mutation, copy, move and destruction, garbage collection, and unregistration and re-registration of mixins, up to the depth bound',
  'tests collect once or twice in fixed states; a stale answer needs a request whose answer is another list (rules), a collection, and the same request again',
  [D+'domain.cpp',D+'type.cpp',D+'object_mutation.cpp'],[('garbage_collect_types',D+'domain.cpp'),('unregister_mixin',D+'domain.cpp'),('allocate_object_buffer / deallocate_object_buffer',D+'type.cpp')])
p('C06','Mixins of an object are disjoint, aligned and lead back to the object',
  '''For every combination of mixin sizes, alignments and internal or external placement, all mixins of an object are at addresses aligned as their descriptions require, lie entirely inside memory allocated for that object (or for that external mixin), and overlap neither each other nor any bookkeeping.
  From the address of any mixin its object can be found, and this is the object which currently owns the mixin, also after mutations and moves.''',
  ['inputs','configurations','histories'],'all types of up to a few mixins over a grid of sizes (including zero) and alignments (1 up to beyond the pointer and the default new alignment), internal, external and with an allocator, with memory aligned to no more than what was requested; then moves and mutations',
  'tests use a handful of concrete layouts and allocators which over-align',
  [D+'domain.cpp',D+'object_mutation.cpp',D+'object.cpp','code/dnmx/mixin_info.h',D+'object_of.hpp','code/dnmx/object_mixin_data.h',D+'alloc_util.hpp'],
  [('object buffer layout',D+'domain.cpp create_type'),('dnmx_set_mixin_info_size_and_alignment','code/dnmx/mixin_info.h'),('set_object / object_of',D+'object_of.hpp')])
p('C07','Feature resolution follows bid, priority and mixin order',
  '''For every type and every feature the implementers are ordered by higher bid first, then lower priority first, then the later mixin first; the top implementer, the set of implementers with the top bid, the next implementer after a mixin and the next lower bidders after a mixin are the ones given by that order, and types which don't implement the feature have none.
  Creating a type in which two mixins implement a feature which doesn't allow clashes with equal bid and priority is an error, any other combination is not.''',
  ['inputs','configurations'],'all types of up to a few mixins, each implementing any subset of two or three features with bids and priorities from a small grid, in all mixin orders, with and without allowed clashes and default implementations',
  'tests check a few hand-made tables',
  [D+'domain.cpp',D+'type.cpp','code/dnmx/basic_type.h'],[('ftable_build_helper',D+'domain.cpp'),('find_next_implementer / find_next_bidder_set',D+'type.cpp')])
p('C08','Messages reach exactly the implementers they should, in order',
  '''A unicast message calls only the top implementer and returns its result; a multicast message calls all implementers of the top bid from the back of the priority order to the top one, once each, and returns the result of the top one; calls of the next implementer or the next bidders go on from the calling mixin in the same order.
  Every call gets the mixin of the receiving object and the arguments of the message, by value or by reference as declared.
  When no mixin implements the message its default implementation is called with the object if there is one, and otherwise the call is an error.''',
  ['inputs','configurations'],'all objects with up to a few mixins implementing the messages with bids and priorities from a small grid, in all mixin orders, before and after mutations; all kinds of calls and argument passing; implementers which mutate, move or destroy their object while they are called',
  'tests call a few messages on a few types',
  [D+'msg/msg_caller.hpp',D+'msg/msg_traits.hpp',D+'msg/next_impl.hpp',D+'msg/func_traits.hpp',D+'feature_info_data.hpp'],[('msg_caller',D+'msg/msg_caller.hpp'),('next_impl',D+'msg/next_impl.hpp')])
p('C09','Objects always have exactly the mixins of their type, each alive once',
  '''After any sequence of object operations, an object has exactly the mixins of its current type: each is constructed exactly once and alive, mixins common to the old and the new type keep their values, new ones are initialized, and removed ones are destroyed exactly once.
  Queries by id, description, name and index all give the same mixins, an empty object has none, and destroying the objects leaves no mixin and no memory behind.''',
  ['histories','configurations'],'all sequences of mutation, type reset, clearing, copying, moving and destruction over objects of all types of a small set of internal, external and allocator-using mixins, up to the depth bound',
  'tests check fixed short histories',
  [D+'object.cpp',D+'object_mutation.cpp'],[('object_mutation',D+'object_mutation.cpp'),('usurp / clear_mixin_data',D+'object.cpp')],(),['object::get','object::get_type'])
p('C10','A failing operation leaves objects and domains as they were',
  '''If anything fails during a mutation, creation or copying of an object, or a type request (any single memory allocation, mixin allocation, initialization or copy, by throwing or by returning an error), the failure is reported, the object keeps its type and all its mixins with their values and addresses, newly constructed mixins are destroyed, no memory is lost, and repeating the operation without the failure succeeds.
  A failing copy-assignment into an existing object may leave some of the common mixins assigned, but its type and mixins remain.''',
  ['fault_sequences','histories'],'for all pairs of source and target types over a small set of mixins and for all mutating operations: every single point at which the operation can fail',
  'tests fail in one or two places; unwinding depends on how far the operation has got',
  [D+'object_mutation.cpp',D+'object.cpp',D+'domain.cpp',D+'mutate_to.hpp'],[('object_mutation::rollback',D+'object_mutation.cpp'),('create_type buffers',D+'domain.cpp')])
p('C11','Operations work the same while an unrelated exception is being unwound',
  '''Creating, mutating, resetting, copying and clearing objects from destructors which run while another exception is being unwound has the same effect as in normal execution, at any nesting of such exceptions.
  A mutation which is itself abandoned by an exception, at any step, has no effect on the object, and one which was already finalized isn't undone.''',
  ['histories','fault_sequences'],'all object operations at all nestings up to three exceptions deep, and all steps at which a mutation can be abandoned or finalized',
  'no test runs operations during unwinding',
  [D+'object_mutation.cpp',D+'mutate.hpp',D+'object.cpp'],[('object_mutation destructor',D+'object_mutation.cpp'),('gradual_mutation destructor',D+'mutate.hpp')])
p('C12','Copies equal their source and moves transfer it',
  '''A copy has the type of its source and equal values in different mixins; copy-assignment gives the target the type and values of the source, assigning common mixins and constructing the others; copying or moving matching mixins changes exactly those which both objects have and no types.
  A move keeps the addresses of all mixins and leaves the source empty and usable, and a move between objects with different allocators is refused with no effect.
  Operations for which a mixin lacks the needed function are refused before anything is changed.''',
  ['inputs','histories','configurations'],'all pairs of objects of all types of a small set of mixins, each with any of the copy and move functions missing, equal and different allocators, and chains of such operations',
  'tests use a few pairs with all functions present',
  [D+'object.cpp'],[('copy, copy_from, copy_matching_from, move_matching_from, operator=',D+'object.cpp')])
p('C13','Object equality and ordering are consistent',
  '''Objects are equal exactly if they have the same type and all their mixins are equal by their equality or, lacking it, their comparison functions; mixins with neither are never equal except within the same object.
  Comparison is a total order on objects of comparable types: antisymmetric, transitive, zero for an object and itself, first by type in canonical order of the mixins and then by the mixins in type order; it agrees with equality, and comparing objects of one type with a mixin which can't be compared is an error.''',
  ['inputs'],'all pairs and triples of objects over all types of a small set of mixins with a small set of values, with any combination of equality and comparison functions present',
  'tests compare a few pairs',
  [D+'object.cpp',D+'type.cpp'],[('object::equals / object::compare',D+'object.cpp'),('type::compare',D+'type.cpp')])
p('C14','Sealed objects never change their type',
  '''Once an object is sealed every operation which would change its type or drop its mixins fails with an error and leaves it untouched, through any interface, while values can still change and the object can be destroyed.
  The sealed state goes with the object when it is moved and isn't inherited by copies.''',
  ['histories'],'all sequences of operations up to the depth bound with sealing at every point, through both the C++ and the C interface',
  'tests try some operations on one sealed object',
  [D+'object.cpp',D+'object_mutation.cpp',D+'object-c.cpp'],[('sealed checks',D+'object.cpp'),('object_mutation constructor',D+'object_mutation.cpp')])
p('C15','Memory always goes back to the allocator it came from',
  '''Every buffer is allocated by the allocator which should provide it (the mixin's own allocator for a mixin which has one, otherwise the object's allocator, and the domain's allocator for types and registries) with the size and alignment the description requires, and is returned exactly once to the same allocator with the same size and alignment.
  External mixins keep their address as long as they are in the object, through all mutations and moves.''',
  ['histories','configurations','fault_sequences'],'all sequences of object operations over mixins with and without allocators and objects with different allocators, including failing ones, up to the depth bound',
  'tests count allocations in a few scenarios with one allocator',
  [D+'object_mutation.cpp',D+'object.cpp',D+'type.cpp',D+'domain.cpp',D+'mixin_allocator-c.cpp'],[('allocate_mixin_data / deallocate_mixin_data / finalize',D+'object_mutation.cpp'),('type deleter',D+'domain.cpp')])
p('C16','Each new mixin is initialized once, by its override or by default',
  '''When an object is mutated with operations or by steps which provide initialization for some mixins, every mixin new to the object is initialized exactly once, in type order, with the provided initialization if there is one (the first, if there are several) and by default otherwise; mixins the object already had are not initialized again, and initializations for mixins which don't end up in the type are ignored.
  Steps out of type order are refused and leave the object as it was, and a mutation with nothing more to do than removing mixins completes as well.''',
  ['inputs','histories'],'all pairs of types and all lists of up to a few operations with and without initialization, by description, name and class, in all orders; all step sequences of a stepwise mutation',
  'tests cover a few combinations; the position of each override among the mixins of the type is what matters',
  [D+'mutate.hpp',D+'mutate_to.hpp',D+'mutate_ops.hpp',D+'mutate_to_ops.hpp',D+'object_mutate_ops.hpp',D+'object_mutation.hpp',D+'mutate-c.cpp'],[('mutate_to',D+'mutate_to.hpp'),('update_at / update_next_mixin',D+'object_mutation.hpp'),('dnmx_mutate_to',D+'mutate-c.cpp')])
p('C17','Type mutations edit the list of mixins as documented',
  '''After any sequence of edits (add, add if lacking, remove, move to back, deduplicate; by description and by name) the list of mixins of a type mutation is what the same edits of a plain list give: deduplication keeps the latter of equal entries and removal and moving affect the first.
  Edits by names which aren't there fail or report absence without changing the list, and the queries of a mutation answer by its current list.''',
  ['histories'],'all sequences of edits over a small set of mixins up to the depth bound',
  'tests use short fixed edit sequences',
  [D+'type_mutation.cpp',D+'type_mutation.hpp',D+'type_mutation-c.cpp'],[('type_mutation',D+'type_mutation.cpp')])
p('C18','The C interface does what the C++ interface does and never throws',
  '''Every sequence of operations has the same effects and results through the C interface as through the C++ interface, where an operation which would throw returns its error value instead.
  No exception leaves a C function whatever fails inside it: an allocation, a mixin function or a rule.''',
  ['histories','fault_sequences'],'all sequences of C operations on domains, types, mutations and objects up to the depth bound, paired with the same C++ operations on a twin; each with every single failure',
  'the C tests run one straight scenario with few failures',
  [D+'object-c.cpp',D+'type-c.cpp',D+'domain-c.cpp',D+'type_mutation-c.cpp',D+'mutate-c.cpp',D+'mixin_allocator-c.cpp'],[('extern C wrappers',D+'*-c.cpp')])
p('C19','Types answer queries by their mixins and features',
  '''For every type the index of a mixin and whether a mixin is there (by id, description and name), whether a feature is implemented (by a mixin, or also by default), the traits of being constructible, copyable and comparable, and membership in type classes, are exactly what its list of mixins and their descriptions give, for all mixins and features including unregistered and later registered ones.''',
  ['inputs','configurations'],'all types of up to a few mixins over descriptions with all combinations of functions present, queried with all ids, names and descriptions around them',
  'tests query a few types for a few things; sparse tables are sensitive to the ids at their ends',
  [D+'type.cpp',D+'type.hpp',D+'type-c.cpp',D+'domain.cpp'],[('index_of / sparse indices',D+'type.hpp'),('ftable_at','code/dnmx/basic_type.h'),('traits',D+'type.cpp')])
p('C20','Descriptions built from a class describe that class',
  '''A description of a mixin made from a class has its size, alignment and exactly the operations the class supports, which act as the class's own (ready-made ones for trivial classes act on all the bytes of the mixin and no others), and all settings, features, payloads, bids, priorities, rules and names given to the builder end up in it, in any number and order of builder calls.
  Registering the built description registers its mixin and rules, unregistering it removes both.''',
  ['inputs','configurations'],'all sequences of builder calls up to the depth bound over classes with all combinations of supported operations and a grid of sizes',
  'tests build a few descriptions',
  [D+'mixin_info_data.hpp',D+'mixin_info_data.cpp',D+'mixin_info_util.hpp',D+'common_feature_info.hpp',D+'feature_info_data.hpp',D+'any.hpp','code/dnmx/mixin_common_funcs.c','code/dnmx/mixin_info.h'],[('common_init_mixin_info',D+'mixin_info_util.hpp'),('mixin_info_data_builder',D+'mixin_info_data.hpp'),('mixin common funcs','code/dnmx/mixin_common_funcs.c')])
p('C21','Common mutation rules give their documented result in every composition',
  '''A mixin which attaches to another is in every type with the other (and, being a dependency, only there), a mixin which also adds another is never without it, and the rules of the compatibility layer keep their promises for every request: a mandatory mixin is always there, a deprecated one never, a substituted one is replaced by its substitute exactly once, of mutually exclusive mixins the last one remains, and dependent mixins come with their master (as far as the rules in force do not contradict each other).''',
  ['inputs','histories','configurations'],'all requests over a small set of mixins under all combinations of the rules, in mutations from all base types',
  'tests check each rule on one or two requests',
  [D+'common_mutation_rules.hpp','v1compat/code/dynamix/v1compat/mutation_rules.cpp','v1compat/code/dynamix/v1compat/common_mutation_rules.hpp'],[('attaches_to / also_adds',D+'common_mutation_rules.hpp'),('apply_to','v1compat/code/dynamix/v1compat/mutation_rules.cpp')])
p('C22','String views compare and search as the strings they denote',
  '''For all string views, including null ones, empty ones, ones with embedded zeros, and ones which share storage or are prefixes of each other, comparison is the lexicographical order of the strings as sequences of unsigned characters, equality agrees with it in the C and the C++ interface, and lengths, prefix tests and first and last occurrences are those of the strings.''',
  ['inputs'],'all pairs (triples for transitivity) of views into one and into separate buffers, over all strings up to a small length on a small alphabet with zero and high characters',
  'the test compares a few literals',
  ['code/dnmx/bits/sv.h'],[('dnmx_sv_cmp and others','code/dnmx/bits/sv.h')])
p('C23','Constructing from a tuple forwards every argument as it was given',
  '''Constructing a mixin from a tuple of arguments calls the constructor once, with all arguments in order and each with its value, constness, reference identity and value category as stored in the tuple, including move-only and reference arguments and an empty tuple, in the given memory and nowhere else.
  An exception of the constructor is passed on.''',
  ['inputs','configurations'],'all tuples of up to three elements over all kinds of elements (values, move-only values, lvalue, const and rvalue references), as const and non-const lvalues and rvalues',
  'the test has one or two tuples',
  [D+'bits/make_from_tuple.hpp',D+'object_mutate_ops.hpp'],[('make_from_tuple',D+'bits/make_from_tuple.hpp')])
p('C24','Settings, perks, ids and rounding helpers keep their values',
  '''Settings builders set exactly the named setting to the given value and leave the others, perks keep exactly the given bid and priority (negated, if negated) and combine with the first given taking precedence, ids compare equal exactly if they have the same value and are invalid by default, and rounding up to a multiple gives the least multiple which isn't less than the value.''',
  ['inputs','histories'],'all sequences of builder calls up to the depth bound; all values in a dense range and around the limits',
  'tests check a few values',
  [D+'domain_settings_builder.hpp',D+'mixin_info_data_literals.hpp',D+'alloc_util.hpp','code/dnmx/mixin_id.h','code/dnmx/feature_id.h'],[('domain_settings_builder',D+'domain_settings_builder.hpp'),('builder_perks',D+'mixin_info_data_literals.hpp'),('next_multiple',D+'alloc_util.hpp')])
p('C25','The fallback memory resource works as the standard one',
  '''On platforms without standard memory resources, memory from the library's default resource has at least the requested size and alignment, is disjoint from all other live memory and can be released with it, for all sizes (including zero) and alignments; there is one default resource, it is equal only to itself, and requests which can't be satisfied are reported as a failed allocation.
  Resources used through the interface get exactly the sizes and alignments which are requested of them.''',
  ['inputs','histories'],'all sequences of allocations and deallocations up to the depth bound over a grid of sizes and alignments; all grid points of size and alignment',
  'no test builds the fallback on platforms which have the standard resources',
  [D+'compat/pmr/memory_resource.cpp',D+'compat/pmr/memory_resource.hpp',D+'compat/pmr/allocator.hpp',D+'alloc_util.hpp'],[('default_resource',D+'compat/pmr/memory_resource.cpp')])
p('C26','Compatibility combinators fold multicast results as documented',
  '''A multicast with a combinator passes it the number of results and then the results in multicast order until it asks to stop, so that a conjunction stops at the first false and is true if there are none false, a disjunction stops at the first true and is false if there is none true, a sum is the sum of all results and a mean is their arithmetic mean; a reset combinator gives the same as a new one.
  When only a default implementation exists it is the only result, and when there is none the call is an error.''',
  ['inputs','histories'],'all sequences of results up to the depth bound over a small set of values, with resets in between, both directly and through messages on objects with all mixin combinations',
  'tests run each combinator on one object',
  ['v1compat/code/dynamix/v1compat/combinators.hpp',D+'msg/msg_caller.hpp'],[('combinators','v1compat/code/dynamix/v1compat/combinators.hpp'),('call_with_v1_combinator',D+'msg/msg_caller.hpp')])
p('C27','Compatibility rule registry hands out and takes back rules by id',
  '''Every rule added through the compatibility layer gets an id different from all currently added ones, is in force until it is removed, and removing it by its id gives back that very rule and ends its effect; removing an unknown or already removed id gives nothing and affects nothing. The same holds when several threads add and remove rules while others request types, with neither a data race nor a deadlock.
  Objects of the compatibility layer live in its domain, copy as themselves, and answer queries about messages and type classes as their types do.''',
  ['histories','schedules'],'all sequences of adding and removing rules and of mutations of objects, up to the depth bound; all interleavings of threads which add and remove rules and request types within the bounds',
  'the test adds and removes rules in one order',
  ['v1compat/code/dynamix/v1compat/mutation_rules.cpp','v1compat/code/dynamix/v1compat/object.cpp'],[('add_mutation_rule / remove_mutation_rule','v1compat/code/dynamix/v1compat/mutation_rules.cpp')])
p('C28','Introspection shows exactly what the domain contains',
  '''Traversing a domain visits every registered mixin, feature, type class and added rule (with the number of times it is added), every existing type and every stored request with the type which answers it, each exactly once and nothing else, after any history.
  The text dump of a domain lists the same, and the counts the domain reports agree with it. While other threads change the domain, a traversal or dump shows it as it is at one moment, with neither a data race nor a deadlock nor a lock taken twice.''',
  ['histories','schedules'],'all sequences of registration, rule changes, type requests, objects, garbage collection and unregistration, up to the depth bound; all interleavings of looking threads with changing ones within the bounds',
  'tests dump one domain and traverse another one',
  [D+'domain_traverse.hpp',D+'domain.cpp',D+'dbg_dmp.cpp'],[('domain_traverse',D+'domain.cpp'),('dbg_dmp',D+'dbg_dmp.cpp')])
p('C29','Concurrent type requests agree on one type without races or deadlocks',
  '''When several threads request types of one domain at the same time, in any interleaving, all requests for one list get the same complete type, as many types exist afterwards as there are different lists, failing requests fail only for their own thread, and there is neither a data race nor a deadlock.''',
  ['schedules'],'all interleavings, at the granularity of synchronization operations, of two and three threads with one to three requests each, up to the preemption bound',
  'the multi-threaded tests run under whatever schedule the machine gives',
  [D+'domain.cpp'],[('get_type / create_type locking',D+'domain.cpp')],[('type_registry','shared mutex protected',D+'domain.cpp')],(),None)
p('C30','Rule changes and reclamation take effect atomically for concurrent requests',
  '''When rules are added or removed, types are collected, or mixins are unregistered while other threads request types, every request is answered as if it had happened at one moment: by the rules before or after the change, and once everything is finished all further requests are answered by the current rules with types which exist.
  There is neither a data race nor a deadlock nor an access to a reclaimed type.''',
  ['schedules'],'all interleavings, at the granularity of synchronization operations, of a requesting thread with one or two threads which change rules, collect or request, up to the preemption bound',
  'no test changes rules concurrently with requests',
  [D+'domain.cpp'],[('get_type query storage',D+'domain.cpp'),('add_mutation_rule / remove_mutation_rule / garbage_collect_types',D+'domain.cpp')])
p('C31','Concurrent registration and lookup are linearizable',
  '''When several threads register, unregister and look up mixins, features and type classes of one domain at the same time, each operation takes effect at one moment between its start and its end: ids never collide, of several registrations with one name exactly one succeeds, lookups find what is registered at that moment, and there is neither a data race nor a deadlock.''',
  ['schedules'],'all interleavings, at the granularity of synchronization operations, of two and three threads with one to three operations each, up to the preemption bound, checked against all sequential orders',
  'the multi-threaded test runs three threads under one schedule',
  [D+'domain.cpp'],[('element_registry locking',D+'domain.cpp')])
p('C32','Objects are independent across threads and their types count them exactly',
  '''Threads which create, mutate, copy, call and destroy their own objects of shared types at the same time get the same results as each alone, the number of objects of each type is exact whenever no operation is in progress, no type with objects is ever collected by a collection in another thread, and there is neither a data race nor a deadlock.''',
  ['schedules'],'all interleavings, at the granularity of synchronization and atomic operations, of two and three threads with a few object operations each and of a collecting thread, up to the preemption bound',
  'the multi-threaded object test is empty',
  [D+'type.cpp',D+'type.hpp',D+'object_mutation.cpp',D+'domain.cpp'],[('object counter',D+'type.hpp'),('garbage_collect_types',D+'domain.cpp')])
p('C33','Static definitions work in any order of initialization, loading and unloading',
  '''Whatever the order in which the translation units of a program are initialized, the domains, mixins, messages, type classes and rules defined in them by the DYNAMIX_DEFINE_* macros (and their v1 counterparts) end up registered exactly once, with the described contents, and usable by the initializers which run in between, up to the exit of the program.
  When plugins with such definitions are loaded and unloaded in any order, the domain contains exactly what the program and the loaded plugins define, and never refers to anything of an unloaded plugin.''',
  ['orders of initialization','sequences of loading and unloading'],'all orders of up to 5 units (of 7 kinds, with the v1 layer) with a use in between, all sequences of loading, using and unloading 2-4 plugins up to depth 5-7, each in a process of its own up to its exit',
  'the tests define everything in one translation unit and load one plugin once',
  [D+'define_mixin.hpp',D+'define_domain.hpp',D+'define_type_class.hpp',D+'msg/define_msg.hpp',D+'globals.hpp',D+'mixin_info_data.hpp'],[('registration by macros',D+'define_mixin.hpp'),('get_info_safe',D+'msg/define_msg.hpp')])
with open(V+'/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x)+'\n')
print(len(P))
