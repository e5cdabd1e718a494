"""Which harnesses decide which property (read by /verif/check and tools/mkmanifest.py)."""
import re
def H(name, src=None, **k):
    return dict(name=name, src=(src or [name + '.cpp']) + ['mc.cpp'] + (['sched_core.cpp'] if k.get('conf') == 'tsan' else []), **k)

ASSUMPTIONS = [
    'the third-party headers which are not part of the repository (itlib, splat) are replaced by the stand-ins in /verif/shim, validated by running the upstream unit tests over them (shim_test/run.sh)',
    'visited states are stored as 56-bit hashes (hash compaction); a collision could hide a state in the state-merging sections, not in the all-sequences ones',
]
TECH = 'exhaustive explicit-state / stateless exploration of operation sequences on the real code against a reference model (bounded model checking by enumeration)'
NOTE = 'Exhaustive within the bounds stated in DESIGN.md, on the real code built from the working tree with ASan and UBSan; nothing is said beyond these bounds.'
NA = {}
CHECKS = {
    'C01': dict(harnesses=[H('c01')], note='all sequences of registrations up to the depth bound on the real domain, compared with a slot-array model after every step'),
    'C02': dict(harnesses=[H('c02')], note='all histories of requests through every entry point without rules, up to the depth bound, against a map from lists to types'),
    'C03': dict(harnesses=[H('c03')], note='all lists over a small set of mixins in canonicalizing and ordinary domains, in all histories up to the depth bound'),
    'C04': dict(harnesses=[H('c04')], note='all combinations and histories of rules up to the bounds, against a reference interpreter of rules and dependencies'),
    'C05': dict(harnesses=[H('c05')], note='all histories of objects, requests, collections, rule changes and registrations up to the depth bound, against a set of types with counts'),
    'C06': dict(harnesses=[H('c06')], note='all combinations of mixin sizes, alignments and storage kinds up to the bounds, and operation sequences over objects of them; every block and mixin address is checked'),
    'C07': dict(harnesses=[H('c07')], note='all combinations of bids and priorities of up to four implementers over a small range with the integer limits, against a reference ordering'),
    'C08': dict(harnesses=[H('c08', alt=['-DMC_COPY_IS_FAILURE'])], note='all combinations of unicast/multicast implementers, bids, priorities and default payloads up to the bounds: executed functions, order and results against a reference'),
    'C09': dict(harnesses=[H('c09')], note='all histories of object operations up to the depth bound, mixin instances and values compared with a reference after every step'),
    'C10': dict(harnesses=[H('c10')], note='a failure injected at every single user function call and allocation of every operation of every history up to the depth bound: the state before the operation must remain'),
    'C11': dict(harnesses=[H('c11')], note='all starts of scopes and exits through exceptions at every point of object lifetimes up to the bound: everything created is destroyed exactly once'),
    'C12': dict(harnesses=[H('c12')], note='all pairs of source and target types and mixin capabilities, and histories of copies and moves up to the depth bound, against a model of values and instances'),
    'C13': dict(harnesses=[H('c13')], note='all combinations of types, values and comparison functions up to the bound: equality, ordering laws and functions called'),
    'C14': dict(harnesses=[H('c14')], note='all histories of operations over sealed and unsealed objects up to the depth bound'),
    'C15': dict(harnesses=[H('c15'), H('c15', conf='compat')], note='all histories of objects and mixins over several allocators up to the depth bound, in both memory resource configurations; every block is tracked'),
    'C16': dict(harnesses=[H('c16', alt=['-DMC_COPY_IS_FAILURE'])], note='all combinations of up to 3 operations/overrides (C++ and C) over all pairs of types, and all sequences of mutation steps up to the depth bound, against a model of calls and values'),
    'C17': dict(harnesses=[H('c17')], note='all sequences of edits up to the depth bound through C++ (by description, name, class), C and gradual mutations, against the same edits of a plain list'),
    'C18': dict(harnesses=[H('c18')], note='all sequences of operations up to the depth bound executed once through C++ and once through C with complete observations compared; then a failure at every failure point inside every C function'),
    'C19': dict(harnesses=[H('c19')], note='all types of up to the bound of mixins with all combinations of functions present, queried with all ids, names and descriptions; all histories of type class registrations and checks'),
    'C20': dict(harnesses=[H('c20', src=['c20.cpp', 'c20_c.c'], flags=['-std=c++20'])], note='all combinations of special members of a class, all sizes and offsets up to the bound for the ready-made functions, all sequences of builder calls up to the depth bound, all histories of registrations with a failure at every allocation'),
    'C21': dict(harnesses=[H('c21', v1=True)], note='all sets and sequences of up to the bound of common rules over three and four mixins, all requests and mutations from all base types, against a reference interpreter and the documented promises'),
    'C22': dict(harnesses=[H('c22', src=['c22.cpp', 'c22_c.c'], lib=False)], note='all pairs and triples of views over all strings up to the bound on a small alphabet with zero and high characters, in separate and shared storage, against std::string'),
    'C23': dict(harnesses=[H('c23', alt=['-DMC_COPY_IS_FAILURE'], src=['c23.cpp', 'c23_m0.cpp', 'c23_m1.cpp', 'c23_m2.cpp'])], note='all tuples of up to three elements of all kinds in all value categories, directly and as arguments of mutations, with and without an exception of the constructor'),
    'C24': dict(harnesses=[H('c24')], note='all sequences of settings builder calls up to the depth bound, all perks and pairs of perks, ids and rounding over grids with the limits, against plain values and 64-bit arithmetic'),
    'C25': dict(harnesses=[H('c25', conf='compat'), H('c25', conf='compat-plain')], note='all sequences of allocations and deallocations over a grid of sizes and alignments, all grid points including sizes near and beyond 2^32 and impossible ones, and all sequences of container operations over recording resources'),
    'C26': dict(harnesses=[H('c26', v1=True)], note='all sequences of calls of each combinator up to the depth bound; all tables of up to four implementers with bids, priorities and results, called with recording (stopping at every point), ready-made and reused combinators and with a mixin which throws, against a reference'),
    'C27': dict(harnesses=[H('c27', v1=True), H('c27t', conf='tsan', v1=True)], note='all histories of adding (new, shared, repeated, removed rules, with failing allocations) and removing rules by known and unknown ids, of compatibility objects, and all sequences of feature list elements, up to the depth bounds, against models; all interleavings of two to four threads which add and remove rules and request types'),
    'C28': dict(harnesses=[H('c28'), H('c28t', conf='tsan')], note='all histories of registrations, rule changes, requests, objects, collections and unregistrations up to the depth bound: traversal, counts and text dumps are compared with a model after every step; all schedules of threads which look with threads which change the domain'),
    'C29': dict(harnesses=[H('c29', conf='tsan')], note='all schedules (reduced by sleep sets) of up to four threads and three requests each within the bounds, on the real code under a controlled scheduler with ThreadSanitizer; every history is compared with all sequential orders'),
    'C30': dict(harnesses=[H('c30', conf='tsan')], note='all schedules (reduced by sleep sets) of two and three threads which request types, change rules, collect and unregister within the bounds; every history and the state afterwards are compared with all sequential orders'),
    'C31': dict(harnesses=[H('c31', conf='tsan')], note='all schedules (reduced by sleep sets) of threads which use the registry through its read-only and object operations at the same time within the bounds, on the real code under a controlled scheduler with ThreadSanitizer'),
    'C32': dict(harnesses=[H('c32', conf='tsan')], note='all schedules (reduced by sleep sets) of two and three threads which create, mutate, copy, clear and destroy objects and collect types within the bounds; object counts, values and memory are compared with a model'),
    'C33': dict(harnesses=[H('c33', v1=True, units=[('c33_tu.cpp', f'-DTU={n}', f'init_tu{n}') for n in range(11)], plugins=[('c33_plugin.cpp', f'-DPLUGIN={n}', n) for n in range(5)], ldflags=['-rdynamic', '-ldl'])],
        note='all orders of initialization of the translation units of a program which defines everything by the macros, and all sequences of loading, using and unloading plugins up to the depth bound, each in a process of its own up to its exit, against a model of what the domain must contain'),
}
def known_findings(V, pid):
    r = []
    try:
        for l in open(V + '/KNOWN_FINDINGS.txt'):
            m = re.match(r'finding: property=(\S+) (.*)', l)
            if m and m.group(1) == pid: r.append(m.group(2))
    except FileNotFoundError: pass
    return r
