TECH = {'*': 'interprocedural guarded-effect dataflow analysis of the source, compared with an effect specification'}
NOTE = {'*': 'Decided from the source on every run: all paths of the named entry points with their callees inlined; loops are '
             'abstracted by their collections, callees listed as leaves have rules of their own. Sound up to the call '
             'resolution and aliasing assumptions in DESIGN.md; constructs it cannot follow are listed as undecided.'}
HOLD = set()
NA = {
 'C35': 'Convergence of a numerical solution (of an external solver) is not decidable from this source.',
 'C36': 'Bit-identity of floating point results of LLVM and Python kernels depends on code generation outside the source; '
        'the structural half is C03.',
 'C37': 'Whether an arbitrary cyclic model has a consistent fixed point depends on runtime values.',
}
