"""
Single source of the property texts: writes properties.jsonl and MANIFEST.json for the checks that exist.
usage: python3 gen_meta.py
"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
D = 'dsrg_generator/'
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=[f if f in ('SpaceCounter.py',) else D + f for f in files], mech=mech, note=level_note))


prop('P01', 'An orbital index has one identity: order, equality, hash and spin agree',
     'Orbital indices are totally ordered by orbital space first (general, particle, hole, virtual, core, active; beta spaces after alpha) and by number second. '
     'Two indices are equal exactly when space and number agree (leading zeros do not matter), and equal indices have equal hashes. '
     'Changing an index to alpha or beta keeps its number and orbital kind, and a malformed name is refused.',
     ['inputs'], 'every orbital space, every number, every digit string',
     'The tests compare a few literal indices; the number range is unbounded and the order has to hold for all triples.',
     ['Index.py', 'mo_space.py'], [('Index comparisons, hash, spin switches', 'dsrg_generator/Index.py')],
     'All 12 spaces with unbounded symbolic numbers; digit strings up to three digits for hashing; name parsing up to length 3.')
prop('P02', 'Sorting antisymmetric indices reports the parity of the permutation',
     'Putting the indices of an antisymmetric tensor or operator in order returns the same indices in ascending order together with sign +1 or -1 equal to the parity of the rearrangement, and leaves the original untouched. '
     'A repeated index on one side of an antisymmetric object is refused. Spin-adapted lists are reordered only as upper/lower pairs and never change sign.',
     ['inputs'], 'every list length up to the bound, every assignment of spaces and numbers',
     'Parity errors appear only for particular orders; the tests check a handful of literal lists.',
     ['Indices.py', 'IndicesPair.py', 'Tensor.py', 'SQOperator.py'], [('canonicalize of lists, pairs, tensors, operators', 'dsrg_generator/Indices.py')],
     'Symbolic spaces and unbounded numbers; lists up to 4 (quick) / 5 indices.')
prop('P03', 'Comparison, equality and hash of index lists, tensors, operators, terms agree',
     'For index lists, index pairs, tensors, operators and terms, exactly one of less, equal, greater holds, the order is transitive, and the reversed comparisons agree. '
     'Equality means equal content, and equal objects have equal hashes. A term does not depend on the order in which its tensors are listed.',
     ['inputs'], 'all pairs and triples of objects within the size bounds, any spaces, numbers and coefficients',
     'Sorting and merging of results relies on these laws for every pair of objects, tests look at single examples.',
     ['Indices.py', 'IndicesPair.py', 'Tensor.py', 'SQOperator.py', 'Term.py'], [('rich comparisons and hashes', 'dsrg_generator/IndicesPair.py')],
     'Symbolic spaces and unbounded numbers for lists up to length 3 and pairs up to two-body; a family of 21 terms with symbolic coefficients.')
prop('P04', 'Densities and deltas keep exactly the orbital spaces in which they survive',
     'Restricting a one-body cumulant, hole density or Kronecker delta to the orbital spaces where it is nonzero gives the exact intersection: occupied for cumulants, unoccupied for hole densities, the common space for deltas. '
     'Composite labels decompose into, and are found from, their elementary spaces consistently. Densities that vanish by orbital space are refused.',
     ['inputs'], 'all pairs of orbital spaces (alpha and beta) and all numbers',
     'The tests cover a few label pairs out of 144.',
     ['Tensor.py', 'mo_space.py', 'IndicesPair.py'], [('downgrade_indices, space tables', 'dsrg_generator/Tensor.py')],
     'All label pairs symbolic, numbers symbolic.')
prop('P05', 'Operator contractions reproduce the generalized Wick theorem',
     'Contracting a product of normal-ordered operators returns every term of the generalized Wick expansion exactly once, with the correct sign, cumulants up to the requested level, and hole densities, and nothing else. '
     'The result respects the requested window on the number of open indices, and operators must be given in normal order.',
     ['inputs', 'configurations'], 'all operator shapes, label assignments, cumulant levels, and open-index windows within the bounds',
     'The tests count contractions or compare a few signs for one label choice.',
     ['sqop_contraction.py'], [('compute_operator_contractions_general, generate_elementary_contractions', 'dsrg_generator/sqop_contraction.py')],
     'Up to three operators (four in thorough), up to two/three-body, symbolic spaces, symbolic windows; compared with an independent expansion.')
prop('P06', 'Commutator contractions are the connected part of the Wick expansion',
     'When asked for commutator contractions, the result is exactly the connected terms of the generalized Wick expansion that contain at least one pairwise contraction between different operators, with correct signs. '
     'The requested window on open indices and cumulant level are respected. Number of processes and batching do not change the result.',
     ['inputs', 'configurations', 'schedules'], 'all operator shapes, label assignments, cumulant levels, windows and task completion orders within the bounds',
     'The tests count the contractions of a few products.',
     ['sqop_contraction.py'], [('compute_operator_contractions_connected, category backtracking', 'dsrg_generator/sqop_contraction.py')],
     'Up to four one-body or three two-body operators; a known finding (four operators) is listed.')
prop('P07', 'A hole density is the delta minus the one-body cumulant',
     'Expanding hole densities replaces each by a Kronecker delta minus a one-body cumulant on the same indices, for any number of hole densities in a product, with correct signs. '
     'Parts that vanish by orbital space are left out, every other part is kept.',
     ['inputs'], 'all label pairs and products within the bounds',
     'The tests expand one or two literal hole densities.',
     ['Tensor.py', 'sqop_contraction.py'], [('expand hole densities', 'dsrg_generator/sqop_contraction.py')],
     'Products of up to two (three) densities, symbolic labels, decided in a finite orbital basis.')
prop('P08', 'Simplifying a term never changes its value',
     'Simplifying a term (restricting density labels, contracting Kronecker deltas, merging core cumulants, dropping amplitudes with only active indices) keeps the value of the term for every choice of tensors and every coefficient, for terms as contractions produce them (densities sit on amplitudes, integrals or the operator, not on each other). '
     'Afterwards no Kronecker delta is left, cumulants carry only indices from spaces where they survive, and every index appearing in the term is one the term reports.',
     ['inputs'], 'all label assignments, coefficients, and term shapes within the bounds',
     'The tests simplify some literal terms and compare strings.',
     ['Term.py', 'Tensor.py'], [('Term.simplify, remove_kronecker, simplify_core_cumulant, minimal index spaces', 'dsrg_generator/Term.py')],
     'Term value compared as a polynomial in all tensor elements over a finite orbital basis; symbolic coefficient.')
prop('P09', 'Bringing a term to canonical form never changes its value',
     'The canonical form of a term represents the same quantity as the original term for every choice of antisymmetric (or Hermitian, or spin-adapted) tensors and every coefficient, including the sign. '
     'A term that vanishes by symmetry becomes zero, and only such a term does.',
     ['inputs'], 'all label assignments, slot orders, coefficients and term shapes within the bounds',
     'Sign errors show for particular index orders only; the tests canonicalize a few literal terms.',
     ['Term.py', 'Indices.py'], [('Term.canonicalize, canonicalize_simple, canonicalize_sympy', 'dsrg_generator/Term.py')],
     'Term value compared as a polynomial in all tensor elements over a finite orbital basis; symbolic coefficient.')
prop('P10', 'Equivalent terms share one canonical form',
     'Terms that differ only by the names of summation indices, the order of antisymmetric slots, the order of the tensors or (for Hermitian tensors) a transposition have the same canonical form, and coefficients that differ by exactly the sign of the rearrangement. '
     'Canonicalizing a canonical term changes nothing.',
     ['inputs'], 'every renumbering, slot permutation, tensor order and transposition within the bounds',
     'Merging of results depends on it for all variants; tests compare few.',
     ['Term.py'], [('Term.canonicalize_sympy and its tensor ordering', 'dsrg_generator/Term.py')],
     'All variants of the listed term shapes; symbolic coefficient.')
prop('P11', 'Combining like terms preserves the sum',
     'Combining a list of canonical terms gives a sorted list without duplicates whose sum equals the sum of the input, for all coefficients. Terms whose coefficients cancel are dropped and no others. '
     'The result does not depend on the order of the list, and the input terms are left unchanged.',
     ['inputs'], 'all lists within the bounds, all real coefficients',
     'Cancellation depends on exact coefficient values, tests use one or two lists.',
     ['phys_op_contraction.py', 'Term.py'], [('combine_terms', 'dsrg_generator/phys_op_contraction.py')],
     'Lists up to four terms from a family of similar terms, symbolic real coefficients.')
prop('P12', 'Contracted products and commutators equal their algebraic definition',
     'Contracting a product of terms gives scale factor times the product of their coefficients times the Wick expansion of the product, and a commutator gives the difference of the two orders, within the requested open-index window and cumulant level. '
     'Exchanging the arguments of a commutator changes the sign. The number of worker processes and the order in which they finish do not matter.',
     ['inputs', 'configurations', 'schedules'], 'all operators, label assignments, coefficients, scale factors, windows and completion orders within the bounds',
     'The tests check a few commutators for fixed labels.',
     ['phys_op_contraction.py', 'sqop_contraction.py', 'Term.py'], [('contract_terms, single_commutator, linear_commutator', 'dsrg_generator/phys_op_contraction.py')],
     'Products of one- and two-body operators with symbolic scale; reference is an independent Wick expansion evaluated in a finite orbital basis.')
prop('P13', 'Nested commutators and BCH expansions follow their definition',
     'The n-th nested commutator of the Hamiltonian with the cluster operator, computed recursively or from the expanded commutator, equals 1/n! times the nested commutator of the expansion with the requested truncation of open indices and cumulants at each level. '
     'Each level is reported separately, and the levels of truncation apply to their own commutator only.',
     ['inputs', 'configurations'], 'cluster levels, references, unitary or not, windows and cumulant levels within the bounds',
     'The tests pin a few term counts.',
     ['phys_op_contraction.py'], [('recursive_single_commutator, bch_cc_rsc, nested_commutator_cc', 'dsrg_generator/phys_op_contraction.py')],
     'Nesting up to level two with small clusters; symbolic windows.')
prop('P14', 'Operator builders produce the operators they are named after',
     'The builders for Hamiltonian, cluster, diagonal Fock, Dyall and Fink operators produce for every rank, labels and starting number exactly the operator of that name, including the antisymmetry factor and the adjoint for de-excitations. '
     'Expanding composite indices, and forming products of single excitations, keeps the operator unchanged.',
     ['inputs', 'configurations'], 'every rank, hole and particle labels, start numbers and scale factors within the bounds',
     'The tests look at few ranks and labels.',
     ['Term.py'], [('hamiltonian_operator, cluster_operator, Dyall and Fink builders, expand_composite_indices', 'dsrg_generator/Term.py')],
     'Rank up to three/four; symbolic scale; values compared in a finite orbital basis.')
prop('P15', 'Block restrictions keep exactly the requested orbital blocks',
     'Restricting a term to excitations, or its one-body part to its diagonal blocks, keeps exactly the orbital blocks that qualify, each once, with the same value as in the original term. '
     'Blocks that do not qualify are dropped completely.',
     ['inputs'], 'all label assignments and coefficients within the bounds',
     'The tests check one or two examples.',
     ['Term.py'], [('make_excitation, make_one_body_diagonal', 'dsrg_generator/Term.py')],
     'All label assignments of the listed shapes, symbolic coefficient.')
prop('P16', 'Spin integration preserves the spin-orbital expression',
     'Integrating out the spin of a spin-orbital tensor, operator or term yields spin-labelled pieces whose sum, together with the antisymmetry of same-spin slots, equals the spin-orbital expression for every spin-conserving tensor. '
     'Every spin-conserving block appears exactly once.',
     ['inputs'], 'all ranks, label assignments, and coefficients within the bounds',
     'The tests count spin cases for few tensors.',
     ['Indices.py', 'IndicesPair.py', 'Tensor.py', 'Term.py', 'SQOperator.py'], [('generate_spin_cases', 'dsrg_generator/IndicesPair.py')],
     'Tensors up to three-body, terms up to two tensors; values compared in a finite spin-orbital basis.')
prop('P17', 'Singlet spin adaptation is exact for singlet tensors',
     'Spin-adapting a spin-integrated tensor block or a whole term gives an expression in spin-free tensors that equals the spin-orbital quantity when the underlying quantity is a singlet. '
     'All permutation weights and signs are exact; an operator block with mixed spins is divided by the square of the number of orders of its spins.',
     ['inputs'], 'all spin blocks and labels within the bounds',
     'The tests compare a few strings.',
     ['Indices.py', 'IndicesPair.py', 'Tensor.py', 'Term.py'], [('generate_singlet_adaptation and spin-adapted types', 'dsrg_generator/Tensor.py')],
     'Up to three-body blocks.')
prop('P18', 'Generated tensor-library code computes the term it was generated from',
     'Executing the generated tensor contraction statements, including the antisymmetrizing permutations of the target, accumulates into the target exactly the antisymmetrized value of the term, and nothing else. '
     'Every index in the statement is named consistently and the target block is the block of the operator.',
     ['inputs', 'programs'], 'all term shapes, label assignments and coefficients within the bounds',
     'The tests compare literal strings for few terms.',
     ['Term.py', 'SQOperator.py', 'Tensor.py', 'IndicesPair.py'], [('Term.ambit, SQOperator.ambit_permute_format', 'dsrg_generator/Term.py')],
     'The emitted text is interpreted by a small evaluator over a finite orbital basis and compared with the reference value.')
prop('P19', 'Printed formulas state the term completely',
     'The printed formula of a term contains its coefficient (sign and magnitude), all tensors with all indices in order, the operator, and the permutation operator, so that reading it back gives the same term. '
     'Different terms never print the same.',
     ['inputs'], 'all term shapes, label assignments and coefficients within the bounds',
     'The tests compare some literal strings.',
     ['Term.py', 'SQOperator.py', 'Tensor.py', 'Indices.py', 'IndicesPair.py'], [('latex and permutation formats', 'dsrg_generator/Term.py')],
     'The text is parsed back and compared.')
prop('P20', 'The contraction order found is optimal and its cost is correct',
     'The reported cost of contracting the tensors of a term pairwise in a given order is the actual scaling with the numbers of core, active and virtual orbitals, and the order found is at least as cheap as every other order.',
     ['inputs'], 'all terms and all contraction orders within the bounds',
     'The tests check one or two terms.',
     ['Term.py', '../SpaceCounter.py'], [('contraction_cost, contraction_path', 'dsrg_generator/Term.py')],
     'All orders of up to four tensors; symbolic labels.')
prop('P21', 'Orbital counters count every index once and compare by cost',
     'A cost counter keeps for every label the exact count (both spins together, whatever the order in which labels are given), counts particle and general labels as virtual and hole labels as core, and compares by total count, then virtual, core, active. '
     'The counter of the indices shared by two tensors counts each index shared between upper and lower once, per orbital space and direction, is transposed when the tensors are exchanged, and compares by size first. Invalid labels and mixed kinds are refused.',
     ['inputs'], 'all counts and labels within the bounds',
     'The tests use literal counters.',
     ['SpaceCounter.py', 'mo_space.py'], [('counters and their comparison', 'SpaceCounter.py')],
     'Unbounded symbolic counts, up to two labels per counter.')
prop('P22', 'Partitions of integers and elements are complete and without repetition',
     'Enumerating the partitions of an integer gives every partition exactly once, with parts in non-increasing order, and splitting into parts up to a limit is likewise complete.',
     ['inputs'], 'every integer up to the bound, every candidate partition',
     'The tests compare single cases.',
     ['helper/integer_partition.py'], [('integer_partition', 'dsrg_generator/helper/integer_partition.py')],
     'n up to 9 (12) with symbolic parts.')
prop('P23', 'Generated program files are complete and faithful',
     'The source files generated from a list of terms contain for every term its contraction statements exactly once, apply the scaling factor and the block structure, declare every temporary before use, and call every function they define.',
     ['inputs', 'programs', 'configurations'], 'all lists of terms and options within the bounds',
     'There are no tests for the generated files.',
     ['write_forte_functions.py', 'phys_op_contraction.py', 'helper/file_utils.py'], [('save_terms_ambit and friends', 'dsrg_generator/write_forte_functions.py')],
     'Generated text is interpreted by a small evaluator and compared with the value of the terms.')
prop('P24', 'Invalid input is refused, valid input accepted',
     'Every constructor and driver refuses malformed input with an error and accepts every well-formed input: index lists without repetition (spin-orbital ones in lowercase), pairs given in one form, tensors whose rank, spin and orbital spaces suit their class, terms whose parts are of one kind and whose indices occur in pairs, comparable objects only, level and window lists of the right length and type. '
     'What is accepted is stored as given.',
     ['inputs'], 'all inputs within the bounds',
     'The tests check single cases of each error.',
     ['Indices.py', 'IndicesPair.py', 'Tensor.py', 'SQOperator.py', 'Term.py', 'phys_op_contraction.py'], [('constructors', 'dsrg_generator/Term.py')],
     'Symbolic labels and numbers, small sizes.')
prop('P25', 'Copies, conjugates and read-only operations never disturb the original',
     'Hermitian conjugation of an operator exchanges creators and annihilators and is its own inverse; a copy of a term has the same tensors, and flips its sign or conjugates its operator only when asked to. '
     'Copying, conjugating, iterating, comparing, printing, spin-integrating and contracting leave the objects involved unchanged, rewriting a term in place never affects its copies, and two iterations over the same object do not interfere.',
     ['inputs', 'histories'], 'all objects and interleavings of operations within the bounds',
     'The tests check single operations, not their effect on other objects.',
     ['Indices.py', 'IndicesPair.py', 'Tensor.py', 'SQOperator.py', 'Term.py'], [('clone, hermitian_conjugate, iteration', 'dsrg_generator/Term.py')],
     'Sequences of up to three operations on small objects.')
prop('P26', 'Derivatives with respect to amplitudes are exact',
     'Differentiating an energy term with respect to its cluster amplitudes gives one term per amplitude (product rule), in which that amplitude is replaced by the operator that creates its lower and annihilates its upper indices, with the same coefficient and correct sign. '
     'The diagonal second derivative removes the one amplitude of the rank of the operator and identifies its indices slot by slot with those of the operator, keeping coefficient and operator; without such an amplitude it is zero.',
     ['inputs'], 'all energy terms and amplitudes within the bounds',
     'The tests check few expressions.',
     ['Term.py'], [('gradient_t, diagonal_hessian_t', 'dsrg_generator/Term.py')],
     'Value compared as polynomials over a finite orbital basis.')
prop('P27', 'What objects report about themselves follows from their indices',
     'Index lists, pairs, tensors, operators and terms report exactly what their indices say: sizes, members, items and slices, indices of either spin in order and their numbers, whether all are of one spin, numbers of indices in given orbital spaces, indices shared by two lists or by both sides, rank, spin and particle conservation, number of distinct permutations of a partition, whether an operator may be an excitation (no core creator, no virtual annihilator, not all active; both spins), whether an amplitude is all active. '
     'Joining lists keeps order and kind and refuses common indices. An emptied term has no tensors, operators or indices, and there is one empty term of each kind.',
     ['inputs'], 'all objects within the size bounds, any spaces and numbers',
     'The tests ask these questions of single objects, mostly of one spin.',
     ['Indices.py', 'IndicesPair.py', 'SQOperator.py', 'Tensor.py', 'Term.py'], [('properties and predicates', 'dsrg_generator/Indices.py')],
     'Symbolic spaces and unbounded numbers, lists up to 3 (4) indices, pairs up to two a side.')
prop('P28', 'Working in a directory always comes back to where it started',
     'A block run in a named subdirectory starts in that subdirectory (made if missing, an existing one and its content kept) and afterwards the working directory is the one before, whatever happens inside: errors, interrupts, changes of directory, nested blocks. '
     'Errors inside a block or a timed section are passed on. If the directory cannot be made or entered, this is reported and the working directory is unchanged. Template fields are replaced wherever they occur.',
     ['inputs', 'fault_sequences', 'histories'], 'all failure points and error numbers, endings and nestings within the bounds',
     'The tests use one directory and never fail.',
     ['helper/file_utils.py', 'helper/Timer.py'], [('ChangeDir, Timer, multi_gsub', 'dsrg_generator/helper/file_utils.py')],
     'Symbolic failure point and error number over up to three nested blocks; blocks with every ending over the real file system in a scratch directory.')


def main():
    have = [p for p in P if os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in have:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': [x.replace(D + '../', '') for x in p['files']],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sympy"',
           'checks': [{'property': p['id'],
                       'quick_cmd': f'python3-vt run_check.py {p["id"]} quick',
                       'thorough_cmd': f'python3-vt run_check.py {p["id"]} thorough',
                       'evidence_file': f'evidence/{p["id"]}.json',
                       'technique': 'bounded symbolic execution of the real Python code, assertions decided by z3',
                       'level': 'other',
                       'level_note': p['note'] + ' Trusted: z3, the symbolic executor (witness paths are replayed on the '
                       'project\'s interpreter), and the reference semantics in lib/oracle.py.'} for p in have],
           'not_applicable': [],
           'notes': 'See DESIGN.md. Counterexamples are replayed on the unpatched code before they are reported.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    for p in have:
        assert len(p['title']) <= 80, p['id']


if __name__ == '__main__':
    main()
