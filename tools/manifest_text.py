DEFAULT_NOTE = ('Every abstract path of the executor, from start-up to the end of the request, over schematic contracts and symbolic requests and node '
                'replies; the source is never run. Trusted: the Python semantics modelled in pysa/, the node model (service/eeproxy), that the schematic '
                'contracts represent contract behaviour. Sampled integer evaluation is used to recognise minimal-length encodings. A construct the analysis '
                'cannot follow makes the scenario incomplete, not violated.')
NA.update({
    'G06': 'an agreement property over all schedules of messages among several nodes and over voting power; needs a distributed protocol model explored over '
           'schedules (model checking), which no dataflow argument over the Go sources replaces; the node cannot be type-checked or compiled here (modules missing)',
    'G07': 'depends on hash values and on an inductive invariant over heap-allocated tries that are lazily loaded and rewritten; no sound static '
           'abstraction in reach relates stored bytes, root hash and content, and the packages cannot be type-checked here',
    'G08': 'an arithmetic conservation property over unbounded histories of claims, registrations and transfers whose amounts, periods and counts are runtime '
           'quantities; needs inductive invariants (proof or model checking), not a dataflow fact',
    'G09': 'quantifies over the contents of the transaction pool and the chain at run time (timestamps, hashes found in a database); the parts which are '
           'syntactic (a check precedes insertion) would not establish the property',
    'J01': 'enforced by bytecode instrumentation of user classes inside the Java executor, which cannot be compiled here (its libraries are missing); '
           'whether every block of every instrumented class is charged is a property of generated code, not of the source',
})

GO_NOTE = ('Every path of the named functions of the node and of the functions they call that matter, from the Go syntax trees and types; nothing is compiled '
           'or run. Loops are unrolled once or twice (paths that go on are cut, not judged), calls not looked into return unknown values, function literals handed '
           'to calls are assumed to run once, packages whose sources are not here have no types. Paths that are inconsistent in a way the analysis cannot see are judged too.')
for _g in ('G01', 'G02', 'G03', 'G04', 'G05', 'G10', 'G11', 'G12'):
    NOTE[_g] = GO_NOTE
    TECH[_g] = 'path enumeration over the Go syntax trees with symbolic terms, branch facts and call events (typestate and order rules)'
TECH['G03'] = 'lock-state dataflow over the Go syntax trees: all paths of every function, summaries of callees'
NOTE['G03'] = ('Every function and literal of the node that takes a lock; paths with merged lock states, loops to a fixed point (4 rounds), summaries of what callees lock '
               'and leave locked. A lock is named by the path of variables and fields it is reached through; locks of elements met in a loop are not followed beyond the loop; '
               'exits by panic are not judged; files which need cgo (rocksdb) are not read.')
TECH['G10'] = 'path enumeration over the Go syntax trees with exact linear arithmetic over big.Int terms'
