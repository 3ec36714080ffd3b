#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = ('contract-based deductive verification of the real code: the functions of /repo are translated from the LLVM IR of the current source into verification conditions '
     '(per-function contracts, computed loop invariants, frames, ghost state) that z3 and cvc5 discharge; failed obligations are replayed on the real code')
NOTE = dict(
 C17='memory and resource safety obligations of every function under contract; the insides of libcrypto, protobuf and abseil are behind contracts',
 C18='getStatusString and the WithStatus holder')
NA = dict(
 C24='contracts of this family speak of one call on one thread; neither the generator here nor an installed deductive verifier for C++ has a permission logic for threads, and a data race needs a schedule',
 C25='execution time is not expressible in these contracts: the compared property is about instruction timing inside libcrypto (CRYPTO_memcmp), which is not part of /repo')
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in NA: continue
    checks.append(dict(property=p, quick_cmd='python3-vt check.py %s quick' % p, thorough_cmd='python3-vt check.py %s thorough' % p, technique=T, level='proof',
                       level_note=NOTE.get(p, 'all inputs and iterations, over contracts of libcrypto, protobuf, abseil and the standard library that are assumed (listed in the evidence); '
                                              'a function that a change takes out of reach is covered by a bounded concrete search instead and reported as bounded')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && clang++-18 --version', checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
