#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLOWNOTE = ('Path-sensitive abstract interpretation of the LLVM IR of every entry point reachable from the module init function. '
            'Trusted: the model of the CPython and libstdc++ calls in checker/api.py and checker/calls.py. Loops are analysed to a fixpoint; '
            'entry points whose abstract state space exceeds the cap are named in the evidence as not analysed (none on the unchanged tree). The raw AVX-512 interface is excluded.')
TECH = {
 'C01': ('ownership (reference count) dataflow over LLVM IR', FLOWNOTE),
 'C02': ('exception-state typestate analysis over LLVM IR', FLOWNOTE),
 'C03': ('exceptional control-flow (escape) analysis over LLVM IR', FLOWNOTE),
 'C04': ('GIL lock typestate analysis over LLVM IR', FLOWNOTE),
 'C05': ('nullness dataflow of interpreter call results over LLVM IR', FLOWNOTE),
 'C07': ('interval, difference and linear-definition analysis of native element positions over LLVM IR; violations are exact (free integers only)',
         'A position is reported when it is not proved inside and all its parts are free or exactly known; positions built from derived quantities that are not proved are not judged and listed in the evidence. ' + FLOWNOTE),
 'C09': ('staleness (invalidated position) dataflow over LLVM IR', FLOWNOTE),
 'C08': ('modification-stamp typestate over LLVM IR', FLOWNOTE),
 'C14': ('return-value identity dataflow over LLVM IR and the type tables', FLOWNOTE),
 'C15': ('object lifetime (construct/destroy) typestate over LLVM IR and the type tables', FLOWNOTE),
 'C16': ('effect analysis (no effect before a failing return) over LLVM IR', FLOWNOTE),
 'C17': ('effect (purity) and alias analysis over LLVM IR', FLOWNOTE),
 'C06': ('interval and difference-bound analysis of numbers from Python over LLVM IR', FLOWNOTE),
 'C20': ('interval, difference and product analysis of size computations over LLVM IR', FLOWNOTE),
 'C21': ('signedness and width dataflow into integer constructors over LLVM IR', FLOWNOTE),
 'C10': ('type-table, format-string and argument-vector conformance rules over LLVM IR (constant tables, constant formats, interval dataflow)', FLOWNOTE),
 'C11': ('conformance of the Python stubs and re-exports with the constant native tables, argument formats, checked argument counts and backward slices of returned objects (syntax trees and LLVM IR)',
         'Argument counts and keyword names are compared for methods and constructors; result kinds are judged where the returned object is made by a known interpreter call, other results are not judged. A native name that is not a constant switches the existence rules off (named in the evidence; none on the unchanged tree). List methods are those of the built-in list.'),
 'C19': ('abstract interpretation of the compared relations (operator pinned) and static slices of index expressions over LLVM IR',
         'A pair whose sides or outcome are not recognised is not judged. That the elements themselves implement their operators correctly is not examined.'),
 'C22': ('abstract interpretation of the block kernels over linear byte offsets (LLVM IR with the vector intrinsics inlined), loop acceleration',
         'Memory instructions, shuffles, permutations and byte swaps are modelled; a kernel using anything else is not judged and named in the evidence (none on the unchanged tree).'),
 'C12': ('constant propagation of the argument count, expression slices compared with compiled reference expressions, conversion rules (LLVM IR, stub syntax tree)',
         'The reference is the compiler\'s intrinsic of the documented name applied to the documented parameters. Bindings the sources disable for GCC/Clang (immediate operands) are only checked to fail. A binding whose shape is not recognised is not judged and named in the evidence (none on the unchanged tree).'),
 'C13': ('bit-level path analysis of the CPU detection functions and whole-program conditional constant propagation per combination of the feature flags (LLVM IR with named intrinsics)',
         'Decides explicit vector code (intrinsics and operations on wide vector types). Instructions the compiler selects on its own are governed by the build flags; the raw AVX-512 interface is documented as unchecked; both are outside the property.'),
 'C27': ('backward slices from the operands of each memory operation to the arguments of the binding, element types of the instantiated kernels, affine lane indices (LLVM IR)',
         'An operand whose slice is not a single argument, or an operation that is not recognised, is not judged and named in the evidence (none on the unchanged tree). That the kernels move the bytes they should is C22.'),
 'C28': ('sequence (segment) abstract interpretation with linear ends and loop acceleration over LLVM IR, compared with the specified contents at every successful return',
         'The routines a range is handed to are taken to sort (C23). Contents that cannot be followed are not judged and named in the evidence; only a difference shown on a feasible path is a violation. ' + FLOWNOTE),
 'C29': ('sequence (segment) abstract interpretation with linear ends and loop acceleration over LLVM IR, compared with the specified contents at every successful return',
         'Contents that cannot be followed (slices of linked lists, slices with a step, some iterations while user code runs) are not judged and named in the evidence; only a difference shown on a feasible path is a violation. ' + FLOWNOTE),
 'C18': ('export-count typestate and ownership dataflow over LLVM IR', FLOWNOTE),
}
NA = {
 'C23': 'needs the full functional behaviour of sorting networks and merge sort over unbounded contents: not the shape of the code but values; no sound static argument in reach (what is around the sorting routine is C28)',
 'C24': 'equivalence with list/dict over unbounded histories and contents is a value property; the clauses about single operations that can be decided are C07, C14, C16, C17, C19, C28 and C29',
 'C25': 'numerical equivalence of vector kernels and scalar loops over unbounded contents; needs symbolic execution or testing, a different family',
 'C26': 'validity of an arbitrary address is the caller\'s obligation; nothing in the source bounds it',
}
def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    checks = []
    na = []
    for p in ids:
        if p in TECH:
            checks.append({'property': p, 'quick_cmd': 'python3 checker/check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 checker/check.py ' + p,
                           'technique': 'static analysis: ' + TECH[p][0], 'level': 'other', 'level_note': TECH[p][1]})
        else:
            na.append({'property': p, 'reason': NA.get(p, 'not yet built')})
    m = {'version': 1, 'setup_cmd': 'python3 checker/setup.py', 'checks': checks, 'not_applicable': na}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
if __name__ == '__main__':
    main()
