#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand after editing: python3 tools/mkprops.py)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[],mechanism=[dict(name=n,where=w) for n,w in mech],
                     observe_at=observe or [],hook_needed=None)))

p("C01","Prover and verifier drive the Fiat-Shamir transcript in lockstep",
"For every instance and every proof, the verifier absorbs into its transcript the same kinds of messages, in the same order and with the same multiplicity, as the prover absorbed when it produced the proof, and both draw the same number of challenges at the same points. Each drawn challenge is used for the same role (constraint weight pair, out-of-domain point, opening weight, query index) on both sides.",
["inputs","programs","configurations"],"all instances (any number of registers, constraints, boundary constraints, masks), all proofs, all transcript/IOP/FRI instantiations",
"The end-to-end tests run one Fibonacci instance; a desynchronisation that needs another constraint shape or register count is invisible to them.",
["src/prover/mod.rs","src/verifier/mod.rs","src/ali/per_register/mod.rs","src/ali/per_register/deep.rs","src/transcript/mod.rs"],
[("prover transcript sequence","Prover::prove, ALIInstance::calculate_g, ALIInstance::calculate_deep"),("verifier transcript sequence","Verifier::verify")],
["Prover::prove","Verifier::verify"])

p("C02","Every challenge is drawn after all prover messages it must depend on",
"Every element of the proof that the verifier relies on and that the prover fixes before a challenge is absorbed into the transcript before that challenge is drawn: witness oracle roots before constraint weights, the composition root before the out-of-domain point, the out-of-domain values before the opening weights, all FRI layer roots and final coefficients before query indices. The messages absorbed are exactly the ones used later in verification, so a prover cannot change any of them after seeing the challenge.",
["inputs","histories"],"all proofs, including adversarially crafted ones, and all points of the protocol history",
"Tests only run honest provers; unabsorbed messages change nothing for an honest run.",
["src/prover/mod.rs","src/verifier/mod.rs","src/ali/per_register/deep.rs","src/fri/mod.rs"],
[("verifier absorb-before-squeeze order","Verifier::verify"),("root identity between absorbed roots and FRI roots","Verifier::verify, FriProof")],
["Verifier::verify"])

p("C03","Acceptance requires every opening to be authenticated at the drawn index",
"The verifier accepts a proof only if the number of witness openings equals the number of registers and of witness roots, every witness opening passes Merkle verification against its own register's root and sits at the drawn first query index, and the composition opening passes Merkle verification against the composition root and sits at the drawn second query index. The authenticated values, and no others, enter the quotient values handed to the low-degree checks, and both low-degree checks must succeed.",
["inputs"],"all proofs, including malformed and adversarial ones",
"Rejection of forged openings needs inputs the tests never build (one soundness test perturbs a single witness cell).",
["src/verifier/mod.rs","src/iop/mod.rs"],
[("opening checks","Verifier::verify"),("I::verify_query / natural_index","Verifier::verify")],
["Verifier::verify"])

p("C04","FRI acceptance authenticates and chains every folding round",
"FRI verification accepts only if in every round both opened coset values are authenticated under that round's root at the coset positions implied by the query index, the first round contains the externally supplied value at the queried position, each later round contains the value folded from the round before, and the last folded value equals the evaluation of the final coefficients at the last point. No round, query or coefficient supplied in the proof escapes these checks.",
["inputs"],"all FRI proofs, including malformed and adversarial ones, all query indices",
"Tests run FRI verification on a handful of honest proofs only.",
["src/fri/verifier.rs","src/fri/mod.rs"],
[("per-round checks","NaiveFriIop::verify_proof_queries"),("final polynomial check","NaiveFriIop::verify_proof_queries")],
["FriIop::verify_proof"])

p("C05","FRI parameters of a proof are pinned by the verifier's instance",
"The verifier accepts only low-degree proofs whose declared degree bound and expansion factor are those that follow from its own instance and configuration; the number of folding rounds, of commitment roots, of openings and of final coefficients in the proof are then forced to the values that follow from that bound and the declared final size, which must be a power of two not above the bound. A proof cannot make the verifier test proximity to a weaker code by declaring different parameters.",
["inputs","configurations"],"all proofs, all declared FRI parameters",
"Honest proofs always declare the right parameters, so tests never exercise the pinning.",
["src/verifier/mod.rs","src/fri/mod.rs","src/fri/verifier.rs"],
[("parameter checks","Verifier::verify"),("round/coefficients count checks","NaiveFriIop::verify_proof_queries")],
["Verifier::verify","FriIop::verify_proof"])

p("C06","All FRI folding implementations compute the same fold",
"The value-based prover fold, the verifier's per-query fold and the prototype checker's fold apply the same formula to a coset pair - (f(x)+f(-x))/2 + challenge*(f(x)-f(-x))/(2x), where x is the domain element of the pair in that round's domain - and the coefficient-based fold computes the corresponding even/odd combination a_even + challenge*a_odd. The challenge of a round is derived from that round's commitment root in the same way on all sides.",
["inputs","configurations"],"all polynomials, domain sizes, expansion factors, round numbers and challenges",
"The one FRI agreement test uses one 4-coefficient polynomial and ignores failures of the prototype check.",
["src/fri/fri_on_values.rs","src/fri/mod.rs","src/fri/verifier.rs","src/fri/query_producer.rs"],
[("fold by values","NaiveFriIop::proof_from_lde_by_values"),("fold by coefficients","NaiveFriIop::proof_from_lde_through_coefficients"),("verifier fold","NaiveFriIop::verify_proof_queries, verify_prototype")],
["FriIop::proof_from_lde","FriIop::verify_proof"])

p("C07","Verification never panics, whatever the proof contains",
"Verifying any proof value - with missing, extra, out-of-range or inconsistent components - returns a result (accept, reject or error) and never aborts the calling thread. Only the caller's own instance description may violate preconditions.",
["inputs"],"all proofs of the proof type, including malformed and adversarial ones",
"Tests never pass malformed proofs.",
["src/verifier/mod.rs","src/fri/verifier.rs","src/iop/blake2s_trivial_iop.rs","src/iop/trivial_coset_combiner.rs","src/domains/mod.rs"],
[("panic sites reachable from Verifier::verify / FriIop::verify_proof","call graph")],
["Verifier::verify","FriIop::verify_proof"])

p("C08","Merkle commitments open: create, path and verify agree at every index",
"For every power-of-two list of at least two leaves and every index, the root computed from the list, the authentication path produced for the index and the verification procedure agree: parent nodes hash their left child before their right child, the path lists the sibling of every node from the leaf up to below the root, and verification recombines them on the side given by the index bits. An opening carries the leaf value at the requested position.",
["inputs"],"all leaf vectors of power-of-two length, all indices",
"The unit test opens all 64 leaves of one list; other sizes and thread splits are not reached.",
["src/iop/blake2s_trivial_iop.rs","src/iop/trivial_coset_combiner.rs"],
[("tree construction","Blake2sIopTree::create"),("path production","Blake2sIopTree::get_path"),("verification","Blake2sIopTree::verify"),("opening","TrivialBlake2sIOP::query / verify_query")],
["IOP::create","IOP::query","IOP::verify_query"])

p("C09","A Merkle opening binds value, position and the full tree depth",
"Verification of an opening depends on the complete leaf value, on every element of the path, on every bit of the position below the tree size and on the whole root; the position that is authenticated is the position that is reported to the protocol. The protocol rejects an opening whose path length differs from the depth of the tree it is opened in.",
["inputs"],"all openings (value, path, index), including adversarial ones, all tree sizes",
"Unit tests only verify honest openings.",
["src/iop/blake2s_trivial_iop.rs","src/verifier/mod.rs","src/fri/verifier.rs"],
[("full comparison and full absorption","Blake2sIopTree::verify, Blake2sTreeHasher"),("depth check","Verifier::verify, NaiveFriIop::verify_proof_queries")],
["IOP::verify_query"])

p("C10","Hashing and transcript absorb their whole input and ratchet",
"Every byte passed to the transcript or to a tree hasher influences its state; field elements are encoded completely and injectively before hashing; after a challenge is drawn the transcript state has changed so that consecutive challenges differ in their derivation; both ways of drawing (bytes and field element) advance the state identically, and all instances start from the same fixed keyed state.",
["inputs","histories"],"all absorbed messages, all interleavings of absorb and draw, all field widths",
"Collisions caused by dropped input or a missing ratchet do not show in a run that only compares a prover and verifier sharing the same bug.",
["src/transcript/mod.rs","src/iop/blake2s_trivial_iop.rs"],
[("absorb","Blake2sTranscript::commit_bytes / commit_field_element"),("draw","Blake2sTranscript::get_challenge / get_challenge_bytes"),("tree hashing","Blake2sTreeHasher::hash_leaf / hash_encoded_leaf / hash_node")],
["Transcript","IopTreeHasher"])

p("C11","Drawing a field challenge is total for every supported field width",
"For every prime field narrower than 256 bits, turning a 256-bit digest into a field challenge always yields an element: the bits kept after masking form a number below 2^(field bits - 1), so the conversion never fails, and no more bits are discarded than needed within the top limb.",
["inputs","configurations"],"all digests, all field widths 1..255 bits",
"Tests use two fields (an 9-bit and a 252-bit one) and a few digests; a wrong mask fails only for other widths or rare digests.",
["src/transcript/mod.rs","src/iop/blake2s_trivial_iop.rs"],
[("mask computation","Blake2sTranscript::get_challenge"),("mask computation","Blake2sLeafEncoder::interpret_hash")],
["Transcript::get_challenge","IOP::encode_root_into_challenge"])

p("C12","Query indices are in range, shared by both sides and avoid the trace domain",
"For every challenge byte string and every power-of-two domain size and expansion factor (at least 2), the query index derived from it is inside the domain, is odd (hence never a multiple of the expansion factor, so the trace domain itself is never opened), and prover and verifier derive it from the same bytes with the same parameters for the same oracle.",
["inputs","configurations"],"all challenge bytes, all power-of-two domain sizes and expansion factors with 2 <= factor <= size",
"Tests reach a couple of indices for one size and factor.",
["src/verifier/mod.rs","src/prover/mod.rs"],
[("index derivation","Verifier::bytes_to_challenge_index"),("call sites","Prover::prove, Verifier::verify")],
["Verifier::bytes_to_challenge_index"])

p("C13","Prover and verifier evaluate the same composition polynomial",
"For every instance, the composition polynomial the prover commits to, evaluated at the out-of-domain point, equals the value the verifier recomputes from the claimed register evaluations: the same constraint terms, constants, degree adjustments, weights, boundary values and divisors, with every constraint and boundary constraint contributing exactly once. This holds for every constraint degree, every number of constraint densities and every adjustment.",
["inputs","programs"],"all instances (constraint degrees, densities, boundary constraints), all challenge values, all points outside the trace domain",
"Tests use instances with one density and degree 1 or 2.",
["src/ali/per_register/mod.rs","src/verifier/mod.rs"],
[("prover composition","ALIInstance::calculate_g"),("verifier composition","Verifier::calculate_g_at_z_from_f_at_z")],
["Prover::prove","Verifier::verify"])

p("C14","Prover and verifier form the same DEEP quotients",
"At every point of the evaluation domain, the quotient polynomials the prover submits to the low-degree test equal the values the verifier recomputes from the openings: the weighted sum over all masks of (f(x) - f(mask*z))/(x - mask*z), and (g(x) - g(z))/(x - z). The claimed out-of-domain values are the evaluations of the committed polynomials at mask*z, listed in mask order.",
["inputs","programs"],"all instances, challenges, query positions",
"Tests run a single query per proof on a tiny instance.",
["src/ali/per_register/deep.rs","src/verifier/mod.rs"],
[("prover quotients","ALIInstance::calculate_deep"),("verifier quotients","Verifier::simulate_h1_from_f_at_z / simulate_h2_from_g_at_z")],
["Prover::prove","Verifier::verify"])

p("C15","Prover and verifier derive the same protocol data from an instance",
"Given the same instance description, the prover's and the verifier's preprocessing produce the same list of masks in the same order, the same grouping and order of constraints by density, the same maximum degree, the same trace and composition domains and the same step-difference masks. Every register/step occurring in any constraint or boundary constraint is in the mask list.",
["inputs","programs"],"all instances",
"Tests compare the two sides only through acceptance of single-density, low-degree instances.",
["src/verifier/mod.rs","src/ali/per_register/mod.rs","src/ali/mod.rs","src/arp/per_register/mod.rs","src/arp/mappings.rs"],
[("verifier preprocessing","Verifier::new"),("prover preprocessing","ARPInstance::route, ALIInstance::from_arp"),("mask collection","get_masks_from_constraint, get_mask_from_boundary_constraint")],
["Prover::new","Verifier::new"])

p("C16","A dense constraint is enforced on exactly the rows its density names",
"For every trace length, start row and span, the witness checker, the prover's divisor and the verifier's divisor agree on the rows where a dense constraint is enforced: all rows from its start row up to (not including) trace length minus span. The divisors vanish exactly on those rows of the trace domain: x^T - 1 divided by the factors of all other rows, including padding rows.",
["inputs","programs"],"all trace lengths (also not powers of two), start rows and spans, all evaluation points outside the trace domain",
"Tests use start row 0, span 1 and power-of-two traces almost exclusively.",
["src/ali/per_register/mod.rs","src/verifier/mod.rs","src/arp/density_query.rs","src/arp/per_register/mod.rs"],
[("prover divisor","inverse_divisor_for_dense_constraint_in_coset"),("verifier divisor","inverse_divisor_for_dense_constraint"),("row enumeration","DenseConstraintQuery")],
["ARP::is_satisfied","Prover::new","Verifier::verify"])

p("C17","Constraint algebra keeps value and recorded degree consistent",
"Building constraints through the public operators preserves meaning: adding or subtracting a term changes the constraint's value by plus or minus that term, multiplying terms multiplies coefficients and factors, raising a term to a power raises its whole value to that power, and the recorded degree of a constraint or term is never below the degree of any of its terms.",
["inputs","programs"],"all sequences of constraint-building operations",
"No test checks the algebra; examples use a few operators on unit coefficients.",
["src/air/constraint.rs"],
[("operators","AddAssign/SubAssign/MulAssign/From/pow impls in src/air/constraint.rs")],
["Constraint","PolyvariateTerm","UnivariateTerm"])

p("C18","The witness checker accepts only witnesses satisfying every constraint",
"The satisfaction check returns success only if every constraint evaluates to zero on every row its density names and every boundary constraint with a value holds at its row and register; it evaluates constraints with the same semantics as the verifier (constant plus sum over terms of coefficient times product of powers of the register value at the shifted row). No constraint, term, row or boundary constraint is skipped.",
["inputs","programs"],"all instances and witnesses",
"Tests call the checker on one satisfying witness.",
["src/arp/per_register/mod.rs","src/arp/density_query.rs"],
[("checker","ARPInstance::verify_witness (is_satisfied)")],
["ARP::is_satisfied"])

p("C19","Unsupported constraint densities are refused, never silently dropped",
"A constraint whose density is not implemented makes instance checking, proving setup and verification stop with a failure; it is never skipped, treated as another density, or left out of the composition on either side.",
["programs"],"all instances containing repeated or sparse constraints",
"No test constructs an instance with another density.",
["src/arp/per_register/mod.rs","src/ali/per_register/mod.rs","src/verifier/mod.rs"],
[("density dispatch","verify_witness, ALIInstance::from_arp, Verifier::calculate_g_at_z_from_f_at_z")],
["ARP::is_satisfied","Prover::new","Verifier::verify"])

p("C20","Parallel computations are independent of the number of worker threads",
"Every data-parallel computation gives the same result for every number of CPUs and every chunk size: each chunk's starting power, index or offset is a function of the chunk's position in the whole vector, chunks cover the vector exactly once, and per-chunk partial results are combined completely.",
["configurations","schedules","inputs"],"all worker counts, chunk sizes, vector lengths and thread schedules",
"The test machine has one fixed CPU count; results for other counts are never computed.",
["src/polynomials/mod.rs","src/precomputations/mod.rs","src/fri/fri_on_values.rs","src/fri/mod.rs","src/ali/per_register/mod.rs","src/iop/blake2s_trivial_iop.rs","src/utils/poly.rs","src/fft/mod.rs","src/fft/fft.rs","src/fft/multicore.rs"],
[("chunked loops","all closures passed to Worker::scope"),("chunk size","Worker::get_chunk_size / get_num_spawned_threads")],
["Polynomial","PrecomputedOmegas","IOP::create","FriIop::proof_from_lde"])

p("C21","No unsynchronised shared mutable state; all spawned work is joined",
"Library code uses no unsafe code, no mutable statics and no interior mutability shared between worker tasks; every parallel task is spawned inside a scope that joins it before the result is used, and the outcome of a panicking task is not swallowed.",
["schedules"],"all thread schedules",
"Data races and lost joins are schedule dependent; tests see a few schedules.",
["src/lib.rs","src/fft/multicore.rs"],
[("scoped threads","Worker::scope"),("ownership","whole crate")],
["whole crate"])

p("C22","A polynomial's cached domain data always matches its length",
"Every constructor, conversion and resizing operation leaves a polynomial whose length is a power of two equal to its recorded domain size, with the recorded generator, its inverse, the inverse of the size and the coset shift inverse belonging to exactly that domain.",
["inputs","histories"],"all sequences of operations on polynomials, all sizes",
"Tests exercise a few constructors and rarely mix padding with transforms.",
["src/polynomials/mod.rs"],
[("constructors and padding","Polynomial::{from_coeffs,from_values,new_for_size,pad_by_factor,pad_to_size,trim_to_degree,fft,ifft}")],
["Polynomial"])

p("C23","Value form and coefficient form cannot be confused",
"A program that mixes a polynomial in value form with one in coefficient form, applies a transform to the wrong form, or builds a polynomial while bypassing the form-tagged constructors does not compile; the only ways to change form are the transforms.",
["programs"],"all client programs",
"Tests are programs that compile; they cannot show that wrong programs do not.",
["src/polynomials/mod.rs"],
[("form type parameter","Polynomial<F, Coefficients> / Polynomial<F, Values>")],
["Polynomial"])

p("C24","Errors are propagated, never discarded or turned into success",
"Every fallible operation's error reaches the caller as an error (or stops the program); no error result is dropped, replaced by a default value, or converted into acceptance on any path of proving, verifying, witness checking or preprocessing.",
["inputs","fault_sequences"],"all inputs and all failing sub-operations",
"Tests drive success paths only.",
["src/verifier/mod.rs","src/prover/mod.rs","src/ali/per_register/mod.rs","src/arp/per_register/mod.rs","src/fri/mod.rs","src/polynomials/mod.rs"],
[("error discipline","all call sites returning Result/Option in the crate")],
["whole crate"])

p("C25","Evaluation domains and their index maps are exact",
"A domain requested for a size is the multiplicative subgroup whose order is the next power of two, generated by the field's root of unity squared down the right number of times, and a request beyond the field's two-adicity is an error. Coset and next-layer index maps pair i with i + size/2 modulo size in ascending order and send i to i modulo size/2 in a domain of half the size.",
["inputs","configurations"],"all sizes, all indices in range, all fields",
"Tests use a few small sizes.",
["src/domains/mod.rs","src/iop/trivial_coset_combiner.rs"],
[("domain construction","Domain::new_for_size"),("index maps","Domain::coset_for_natural_index_and_size, Domain::index_and_size_for_next_domain, TrivialCombiner::get_coset_for_natural_index")],
["Domain","CosetCombiner"])

p("C26","Pointwise and evaluation primitives compute their defining formulas",
"Scaling, negation, addition, subtraction, multiplication, powers, constants, scaled addition, distribution of powers, degree-one evaluation over a domain or coset, evaluation at a point, precomputed tables of domain elements and batch inversion return, at every position, exactly the value of their mathematical definition, for every length including those smaller than the number of threads.",
["inputs","configurations"],"all vectors, lengths, scalars and thread counts",
"Only batch inversion has a test, over a few sizes.",
["src/polynomials/mod.rs","src/precomputations/mod.rs","src/fft/mod.rs","src/utils/poly.rs"],
[("elementwise loops","Polynomial::{scale,negate,pow,square,add_assign,sub_assign,mul_assign,add_assign_scaled,add_constant,distribute_powers,evaluate_at,batch_inversion,evaluate_at_domain_for_degree_one,...}"),("tables","PrecomputedOmegas::new_for_domain")],
["Polynomial","PrecomputedOmegas"])

p("C27","Trace registers keep their identity when turned into an instance",
"Converting a trace into a proving instance maps every register of every kind to a distinct column, moves its witness column to exactly that position, rewrites every constraint term and boundary constraint with the same mapping, and reports the number of registers and rows that the columns actually have.",
["inputs","programs"],"all traces with any number of program-counter, main, auxiliary and constant registers",
"The only traces in the tests have main registers only.",
["src/arp/mod.rs"],
[("register remapping","IntoARP::into_arp for TestTraceSystem")],
["IntoARP::into_arp"])

p("C28","FFT kernels apply the same butterfly network as the defining transform",
"The default serial transform permutes its input by bit reversal and then applies, in every stage, butterflies (a + w*b, a - w*b) with twiddles that are successive powers of the stage's root of unity, covering every pair exactly once; the parallel transform splits the input into strided sub-transforms with the matching twiddle factors and reassembles them in order, for every size and CPU count.",
["inputs","configurations"],"all power-of-two sizes, all CPU counts, all input vectors",
"Tests compare a few sizes on one CPU count.",
["src/fft/fft.rs","src/fft/mod.rs"],
[("serial butterflies","fft::serial_fft"),("parallel split","fft::parallel_fft")],
["Polynomial::fft","Polynomial::ifft"])

p("C29","Low-degree extensions place coset values in natural order",
"Extending a polynomial by a factor evaluates it on the larger domain (shifted by the coset generator for the coset variants) in natural order: position k holds the evaluation belonging to coset k mod factor and element k div factor, where coset number c is generated from the c-th power of the larger domain's generator, for every factor and CPU count. Transform and inverse transform use the polynomial's own generator and its inverse with the 1/size factor applied once.",
["inputs","configurations"],"all polynomials, factors, CPU counts",
"Tests compare extension variants for factor 16 on one CPU count.",
["src/polynomials/mod.rs"],
[("extension by cosets","Polynomial::lde_using_multiple_cosets, coset_lde_using_multiple_cosets and naive variants"),("transforms","Polynomial::{fft,ifft,coset_fft,icoset_fft}")],
["Polynomial::lde","Polynomial::coset_lde"])

p("C30","An honest proof assembles matching oracles, roots, openings and layers",
"Every proof the prover emits opens exactly the oracles whose roots it carries, in the same order, at the positions derived from the transcript, with values taken from the same evaluation vectors that were committed; the FRI part opens in every committed layer the full coset of the current position and advances the position to the next, half-sized layer.",
["inputs","programs"],"all instances, witnesses and challenges",
"Tests produce two proofs of one tiny instance.",
["src/prover/mod.rs","src/fri/query_producer.rs","src/fri/mod.rs","src/fri/fri_on_values.rs"],
[("proof assembly","Prover::prove"),("layer openings","FRIProofPrototype::produce_proof")],
["Prover::prove","FriIop::prototype_into_proof"])

p("C31","Concrete soundness error of the protocol",
"For every false statement, the probability over transcript randomness that some efficiently computable proof is accepted is below the target bound implied by field size, expansion factor and number of queries.",
["inputs"],"all false statements and all efficient provers",
"A probability bound over adversaries is not testable.",
["src/verifier/mod.rs","src/fri/verifier.rs"],[("whole protocol","Verifier::verify")])
p("C32","Zero knowledge of emitted proofs",
"A proof reveals nothing about unconstrained witness cells beyond what the opened positions and out-of-domain values determine.",
["inputs"],"all witnesses",
"A distributional statement over all witnesses; tests compare no distributions.",
["src/prover/mod.rs"],[("query indices off the trace domain","Verifier::bytes_to_challenge_index")])
p("C33","Forward and inverse transforms undo each other, and all kernels agree",
"For every vector of power-of-two length, applying a forward transform and then the inverse transform (plain or on the coset, in either order) returns the same vector, with the same domain data; the kernels that skip known zeros (serial and parallel, as used by low-degree extensions) give the same result as the full transform on every input that is zero beyond length / factor, for every power-of-two factor, size and CPU count.",
["inputs","configurations"],"all vectors, sizes, factors and CPU counts",
"Tests compare a handful of random vectors.",
["src/fft/lde.rs","src/fft/fft.rs","src/polynomials/mod.rs"],[("kernels","fft::lde::{serial_lde,parallel_lde,best_lde}"),("inverse pairs","Polynomial::{fft,ifft,coset_fft,icoset_fft}")])
p("C34","Prover resource use",
"Proving time and memory stay within a quasi-linear bound in trace size and scale with the number of CPUs.",
["inputs","configurations"],"all instances and CPU counts",
"Timing and memory vary with machine and load.",
["src/prover/mod.rs","src/fft/mod.rs"],[("parallel kernels","src/fft")])
p("C35","Witness polynomials interpolate the submitted trace",
"For every trace, the polynomials the prover commits to are, register by register and in register order, the polynomials of degree below T (the next power of two of the number of rows) that take the value of row i of the register's column at the i-th power of the trace domain's generator and zero on the padding rows, with the domain data of size T. A trace whose number of registers, or the length of any of whose columns, is not the declared one is refused.",
["inputs","configurations"],"all traces, register counts, lengths and CPU counts",
"Tests convert two small traces and never evaluate the polynomials at every row.",
["src/arp/per_register/mod.rs"],[("conversion","arp::per_register::make_witness_polymonials"),("shape tests","ARP::calculate_witness_polys")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
