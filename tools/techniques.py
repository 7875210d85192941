TECH.update({
 'C19': ('MIR switch-exhaustiveness and must-reach analysis over the call graph', 'other',
         'Every switch on a density discriminant in the crate is enumerated and its non-Dense arms must fail; dominance and call-graph reachability show each constraint meets such a dispatch. Trusts rustc\'s MIR and callee resolution.'),
 'C21': ('whole-crate scan of resolved types, unsafe code and spawn sites; join analysis by dominance', 'other',
         'With no unsafe code and no shared interior mutability the Rust type system excludes data races; spawn sites and scope outcomes are enumerated. Trusts rustc and crossbeam\'s scope.'),
 'C23': ('compile-fail witnesses with compiling twins plus a MIR flow rule on constructors', 'other',
         'Each illegal mix of forms is rejected by the type checker for every program of that shape; the flow rule shows no constructor re-tags storage. Trusts rustc\'s type checker.'),
 'C24': ('MIR use-tracking of every fallible outcome to its consumers', 'other',
         'Every call producing a Result or an error Option is enumerated and all its uses classified; failure branches must end in failure on every path.'),
})
FORMULA = 'Closed forms come from the current MIR for symbolic lengths and chunk sizes; equality is decided on normal forms over the field laws. A body the summariser cannot close is reported as undecided and does not alarm. Trusts the models of std, ff and crossbeam.'
TECH.update({
 'C26': ('gated value numbering of MIR with closed-form loop summaries, compared with the defining formulas', 'other', FORMULA),
 'C29': ('gated value numbering of MIR with closed-form loop summaries, compared with the defining formulas', 'other', FORMULA),
 'C20': ('gated value numbering of MIR with a symbolic chunk size: the closed forms must not depend on it', 'other', FORMULA),
})
VG = 'gated value numbering of MIR with closed-form loop summaries, compared with the defining formulas'
TECH.update({k: (VG, 'other', FORMULA) for k in ('C01', 'C06', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C22', 'C25', 'C27', 'C30', 'C35')})
ACC = 'acceptance condition of the verifying function derived by gated value numbering of MIR, and entailment between quantified conditions by instantiation'
ACCN = 'The acceptance condition is derived from the current MIR for an arbitrary proof; it must entail the stated condition. A violation is reported only when the derived condition also holds for a described proof that breaks the statement; otherwise an unproved entailment is undecided and does not alarm. Calls into other components (Merkle verification, transcript) are opaque.'
TECH.update({k: (ACC, 'other', ACCN) for k in ('C02', 'C03', 'C04', 'C05')})
TECH['C07'] = ('enumeration of stopping conditions in the gated value numbering of MIR, each refuted from the tests made before it', 'other',
  'Every operation reached from verification that can stop execution is recorded with its exact condition for an arbitrary proof; it must contradict the earlier tests or speak of the caller\'s instance only. Sizes needing more memory than exists and write_le into a fixed buffer are taken as impossible. Undecided bodies are reported as such and are quiet.')
TECH['C08'] = (VG, 'other', FORMULA)
TECH['C09'] = (VG + '; entailment for path lengths', 'other', FORMULA)

TECH['C28'] = ('recurrence normal form of the transform kernels (loop summaries of MIR keep in-place updates as a recurrence), compared part by part with the radix-2 network', 'other',
  'Every part of the serial kernel (iteration counts, swap at bit-reversed positions, indices written, values of a pair) must equal the network\'s; the parallel kernel must equal the strided sum. A different form is an alarm only if it differs from the defining sum, or if exactly one part of the network differs for some size. That the network is the transform (Cooley-Tukey) is taken as known.')
TECH['C33'] = ('gated value numbering of MIR for the composed transforms; recurrence normal form of the zero-skipping kernels compared with the full network under the known zeros', 'other',
  'The composition must be the double sum that orthogonality of roots of unity collapses (taken as known); sparse stages must equal the butterflies when the elements known to be zero are zero (how the zeros spread is taken as known arithmetic). A different form is an alarm only if it differs from the defining sum.')
