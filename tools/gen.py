#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it; both outputs are committed)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOM = 'all (v,k,l,u) with v>=3, 0<k<v-1, 0<=l<k, u>=0 and (v-k-1)u = k(k-l-1)'
T_REF = 'runtime monitoring: executions compared with an independent executable reference model'
NOTE = ('Held on every execution observed; inputs outside the workload are not covered. Trusts the reference model in mon/ref.py '
        '(pure Python integers, shares no code with the repository), CPython and numpy.')


def P(id, title, statement, over, text, why, files, mech, observe, state=(), technique=T_REF, note=NOTE):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                observe=observe, state=state, technique=technique, note=note)


TABLE = [
    P('C01', 'Every answer is a strongly regular graph with the given parameters',
      'Every matrix that solving (v,k,l,u) yields, for parameters with 0<k<v-1, 0<=l<k and (v-k-1)u = k(k-l-1), is a v x v symmetric 0/1 matrix '
      'with zero diagonal, k ones in every row, exactly l common neighbours for every adjacent pair and exactly u for every non-adjacent pair. '
      'Parameters no graph can meet yield nothing and raise nothing.',
      ['inputs'], DOM, 'The tests compare twenty parameter sets with stored answers; the claim is about every parameter set and every answer.',
      ['srg/solver.py', 'srg/srg.py', 'srg/gauss_elim.py'],
      [('solve/advance: one row at a time', 'srg/solver.py'), ('row conditions as equations', 'srg/srg.py Question.from_matrix')],
      ['every matrix yielded by solve'], technique='runtime monitoring: definitional oracle on every matrix yielded'),
    P('C02', 'No strongly regular graph is missed',
      'Solving (v,k,l,u), for parameters with 0<k<v-1, 0<=l<k and (v-k-1)u = k(k-l-1), yields every adjacency matrix of a strongly regular graph '
      'with these parameters that is in normal form: in every row, of two neighbouring columns right of the diagonal that agree on all rows above, '
      'the left entry is not smaller than the right one. In particular every isomorphism class is represented.',
      ['inputs'], DOM, 'Stored answers cover twenty parameter sets, mostly with one or two answers; a pruning error shows on other parameters only.',
      ['srg/solver.py', 'srg/gauss_elim.py', 'srg/bounds.py', 'srg/fork.py', 'srg/unique.py'],
      [('exhaustive branching on equal-column group counts', 'srg/solver.py solve_question, fork_enum'),
       ('pruning only when no solution is left', 'srg/solver.py NoSolution')],
      ['set of matrices yielded by solve']),
    P('C03', 'Each answer is yielded exactly once and in normal form',
      'Solving never yields the same matrix twice for parameters with 0<k<v-1, 0<=l<k and (v-k-1)u = k(k-l-1). '
      'Every yielded matrix is in normal form: in every row, of two neighbouring columns right of the diagonal that agree on all rows above, the left entry is not smaller than the right one.',
      ['inputs'], DOM, 'Tests count answers for a few parameter sets; a duplicate or unsorted answer on other branches is not seen.',
      ['srg/solver.py', 'srg/srg.py'], [('disjoint branches', 'srg/solver.py fork_enum'), ('ones first in each group', 'srg/srg.py Answer.binarize')],
      ['sequence of matrices yielded by solve'], technique='runtime monitoring: exactly-once and trace-order monitor on the yielded sequence'),
    P('C04', 'Solving is repeatable and isolated',
      'Solving the same problem again gives the same answers in the same order, whatever ran before, however several solving runs are interleaved or run in threads, '
      'and whatever the hash seed. Solving does not modify the matrix it starts from, and modifying a matrix already yielded does not change any later answer.',
      ['schedules', 'histories', 'inputs'], 'every history of earlier and interleaved solves (generators advanced in any order, threads), every hash seed, every mutation of an input copy or an output between two answers',
      'Each test runs one solve from a fresh seed and drops the answers.',
      ['srg/solver.py', 'srg/srg.py', 'srg/fork.py'], [('questions are copied per branch', 'srg/solver.py fork_enum'), ('rows are stacked into new matrices', 'srg/srg.py SRG.append_and_return_new')],
      ['sequences yielded by solve under different histories; the arrays handed in and out'],
      technique='runtime monitoring: history/interleaving stress with sequence-equality oracle and write detection'),
    P('C05', 'Every proposed next row satisfies its equations',
      'For the question posed by a partial matrix of two or more rows in normal form, every candidate next row is a 0/1 vector of the right length that satisfies A x = b exactly, '
      'and within every group of identical columns its ones come first. A question without solution gives no candidate and raises nothing.',
      ['inputs'], 'all next-row questions: prefixes (reachable, dead-end and perturbed) of all orders, and question systems built from random 0/1 columns',
      'Tests check a handful of hand-made questions; unreachable equation contradictions need specific right hand sides.',
      ['srg/solver.py', 'srg/gauss_elim.py', 'srg/bounds.py'], [('simplify to a fixed point, then branch', 'srg/solver.py solve_question')],
      ['vectors yielded by solve_question'], technique='runtime monitoring: A x = b oracle on every yielded vector'),
    P('C06', 'Every next row is proposed, exactly once',
      'For the question posed by a partial matrix of two or more rows in normal form, the candidate next rows are all of the 0/1 vectors that satisfy A x = b with the ones first within each group of identical columns, '
      'each of them exactly once.',
      ['inputs'], 'all next-row questions: prefixes (reachable, dead-end and perturbed) of all orders, and question systems built from random 0/1 columns',
      'Tests check a handful of hand-made questions; a branch lost in a specific bound/quota combination is not sampled.',
      ['srg/solver.py', 'srg/fork.py', 'srg/bounds.py', 'srg/unique.py', 'srg/gauss_elim.py'],
      [('simplify to a fixed point, then branch', 'srg/solver.py solve_question')], ['multiset of vectors yielded by solve_question']),
    P('C07', 'The question posed for a partial matrix states exactly the row conditions',
      'For parameters with u<=k the two seed rows are the normal form start for (v,k,l,u), and the parameters are recovered from them. '
      'The question formulated from a partial matrix in normal form has, as its 0/1 solutions, exactly the vectors that complete the next row so that it has k ones and the right number of common neighbours with every earlier row; '
      'it reports that there is no solution, instead of a question, exactly when a required count is already exceeded.',
      ['inputs'], DOM + '; all partial matrices of two or more rows', 'Tests pose four questions.',
      ['srg/srg.py', 'srg/solver.py'], [('Question.from_matrix', 'srg/srg.py'), ('_seed', 'srg/solver.py'), ('vklu', 'srg/srg.py')],
      ['A, b, quota, bounds of the question; NoSolution']),
    P('C08', 'Simplifying a question neither loses nor invents solutions',
      'Merging equal columns, eliminating between equations, fixing entries that must be zero and solving one-entry equations each leave the solution set of a question unchanged '
      '(after merging, up to the order within a merged group). A step reports that there is no solution only when there is none.',
      ['inputs', 'histories'], 'all questions with 0/1 columns, right hand sides, upper bounds and partially fixed answers, at the start of a search or reached by sequences of simplification and branching steps',
      'Tests check single steps on about ten fixed systems.',
      ['srg/solver.py', 'srg/bounds.py', 'srg/unique.py', 'srg/gauss_elim.py'],
      [('reduce_col, eliminate, zero_in_b, only_1_element_in_row', 'srg/solver.py'), ('upper bounds, one-element rows', 'srg/bounds.py')],
      ['question before and after every step'], state=[('Question', 'A x = b, 0 <= x <= bounds, sum x = quota, and the entries fixed so far', 'srg/srg.py')]),
    P('C09', 'Branching splits the solutions, without overlap and without sharing',
      'The questions a branching step produces have disjoint solution sets whose union is the solution set of the question branched on. '
      'The produced questions share no mutable state with each other or with the parent: working on one never changes another.',
      ['inputs', 'histories'], 'all questions reached after merging equal columns; all orders of working on the branches',
      'Tests look at the values enumerated for a few quotas, not at what happens to sibling branches.',
      ['srg/solver.py', 'srg/fork.py'], [('fork_enum', 'srg/solver.py'), ('fork.enum', 'srg/fork.py')], ['parent and child questions before/after working on a child']),
    P('C10', 'Solving can be resumed from any partial answer',
      'Solving from any partial matrix of at least two normal-form rows that agree with the parameters yields exactly the normal-form strongly regular graphs whose leading rows it is, each once; '
      'in particular every prefix of a graph in normal form leads back to that graph, and a dead end yields nothing.',
      ['inputs', 'histories'], 'every number of given rows from 2 to v-1 of every normal-form labelling of every graph, and dead-end prefixes',
      'Tests start from the two seed rows only (and one three-row prefix).',
      ['srg/solver.py', 'srg/srg.py'], [('advance/solve', 'srg/solver.py'), ('SRG.append_and_return_new', 'srg/srg.py')], ['set of matrices yielded by solve from a prefix']),
    P('C11', 'Large orders are computed as exactly as small ones',
      'Nothing depends on the order v fitting in a machine word: for orders well above 64, 128 and 256, seeding, posing and solving next-row questions, completing nearly complete graphs, complementing, '
      'normalising and the families of complete multipartite graphs and disjoint cliques give the exact results.',
      ['inputs'], 'orders up to 300 (thorough: 600), where 8-, 16- and 64-bit encodings of rows, columns and counts overflow', 'Tests stop at order 28.',
      ['srg/unique.py', 'srg/gauss_elim.py', 'srg/srg.py', 'srg/solver.py', 'srg/sorter.py'],
      [('encodings of rows and columns', 'srg/unique.py, srg/gauss_elim.py'), ('array element type', 'srg/srg.py')], ['answers at orders up to 300']),
    P('C12', 'Solving always terminates, with effort bounded by exhaustive search',
      'Solving any next-row question ends, after at most as many branches as assigning a count to every group of identical columns exhaustively would make. '
      'A complete solve for parameters with 0<k<v-1, 0<=l<k and (v-k-1)u = k(k-l-1) ends whether or not there is an answer.',
      ['inputs'], DOM + '; all next-row questions', 'A test that hangs only shows on the inputs it samples.',
      ['srg/solver.py', 'srg/gauss_elim.py'], [('fixed point of the simplification steps', 'srg/solver.py solve_question'), ('restart of the elimination', 'srg/gauss_elim.py')],
      ['logical steps executed (calls and jumps in the solver), branches opened'], technique='runtime monitoring: logical step and branch counters with a budget from the search-space size',
      note=NOTE + ' Non-termination is observed as exceeding a step budget, never by wall-clock time.'),
    P('C13', 'Maximising gives an isomorphic normal form, once and for all',
      'Maximising a symmetric 0/1 matrix with zero diagonal returns a matrix that is the same graph with its vertices relabelled, keeps vertex 0 first, is in normal form (in every row, of two neighbouring columns right of the diagonal that agree '
      'on all rows above, the left entry is not smaller), and is not smaller than the input in the order used for sorting answers. '
      'Maximising it again changes nothing, the input is not modified, and the result for a strongly regular graph is one of the answers of solving its parameters.',
      ['inputs'], 'all graphs: every labelling, strongly regular or not, complete, empty, orders 2 to 150', 'Tests maximise four fixed matrices.',
      ['srg/sorter.py'], [('AdjMat: stable sort of column groups, row by row', 'srg/sorter.py')], ['input and output of maximize'],
      technique='runtime monitoring: isomorphism-certificate, normal-form, idempotence oracles on every call'),
    P('C14', 'Sorting answers is a stable permutation; swapping relabels two vertices',
      'Sorting a list of matrices returns the same matrices in ascending order of their upper triangles read row by row, keeps equal ones in their given order, accepts any iterable, and modifies nothing. '
      'Swapping vertices i and j exchanges exactly rows and columns i and j in a new matrix, leaving the given one as it was, and swapping again restores it.',
      ['inputs'], 'all finite sequences of symmetric 0/1 matrices of one order, all i, j', 'Tests sort two short lists and swap one pair.',
      ['srg/sorter.py'], [('sort, _cmp_srg_matrix, _encode', 'srg/sorter.py'), ('swap, swap_and_verify', 'srg/sorter.py')], ['input and output sequences']),
    P('C15', 'Complementing is exact for matrices and for parameters',
      'The complement of a graph has a one exactly where two different vertices are not adjacent, complementing twice restores the matrix, and the input is not modified. '
      'The complementary parameters are those of the complement graph, again satisfy the counting identity, and complementing them twice restores them.',
      ['inputs'], 'all 0/1 symmetric zero-diagonal matrices of orders 1 to 200; all parameters satisfying the identity', 'One test checks one parameter set.',
      ['srg/utils.py'], [('complement, complement_vklu', 'srg/utils.py')], ['input and output of both functions']),
    P('C16', 'Eigenvalues, multiplicities and determinant are those of the graph',
      'For the parameters of any existing strongly regular graph other than a complete graph, the three (eigenvalue, multiplicity) pairs are the spectrum of its adjacency matrix, the degree first: multiplicities are integers adding up to v, '
      'and the eigenvalues are integers unless the graph is a conference graph. The determinant is exactly the integer determinant of the adjacency matrix. Both hold for parameters given as Python integers and as 64-bit numpy integers, as they are read off a matrix.',
      ['inputs'], 'the parameters of every strongly regular graph that can be constructed (Paley, Latin square, triangular, multipartite, cliques, symplectic, ... and complements)',
      'Tests check the stored graphs up to order 28 with floating point tolerance.',
      ['srg/utils.py'], [('eig, conference, determinant', 'srg/utils.py')], ['returned values against exact characteristic data of the matrix'],
      technique='runtime monitoring: exact spectral oracle (integer determinant, annihilating polynomial, traces)'),
    P('C17', 'Parameter validation accepts exactly the counting identity',
      'Validation passes for integers (v,k,l,u) exactly when (v-k-1)u = k(k-l-1), and rejects with an assertion error otherwise. '
      'The parameters read off a partial matrix of at least two normal-form rows with 0<k<v-1 are exactly those it was seeded with.',
      ['inputs'], 'all integer quadruples (small ones exhaustively), all seeds and prefixes', 'One test checks one rejected quadruple at most.',
      ['srg/utils.py', 'srg/srg.py'], [('assert_srg', 'srg/utils.py'), ('vklu', 'srg/srg.py')], ['accept/reject decision, recovered parameters']),
    P('C18', 'Everything the database stores is valid',
      'Every problem listed in the database can be loaded under its parameters, and its name, parameters and solutions agree: each stored solution is a strongly regular graph with these parameters, in normal form, and stored once. '
      'The listing names every stored problem exactly once, and an unknown problem is an error rather than an empty answer.',
      ['inputs'], 'all stored problems and matrices, all name/parameter conversions', 'Tests walk the stored problems but check regularity by eigenvalues and skip normal form and distinctness.',
      ['srg/database/__init__.py', 'srg/database/problem_28_12_6_4.py'], [('list_problems, extract_vklu, get_solutions', 'srg/database/__init__.py')], ['values returned by the database functions'],
      technique='runtime monitoring: definitional oracle over the complete stored data'),
    P('C19', 'The database answers agree with solving and with known classifications',
      'For every stored problem, the stored solutions are the complete set of normal-form answers, except the two problems (25,12,5,6) and (26,10,3,4) that deliberately store only the first one. '
      'A problem stored without solutions is one for which no strongly regular graph exists.',
      ['inputs'], 'all stored problems', 'Tests compare the solver with the database for the fast problems only, so both may lack the same answer.',
      ['srg/database/__init__.py'], [('problem modules', 'srg/database')], ['stored sets against independently computed sets']),
    P('C20', 'The command line prints all answers, complete and in order',
      'python -m srg v k l u prints the parameters and then every answer of solving them, every matrix in full whatever its size, in ascending order, each once, and exits with status 0; parameters without an answer print no matrix. '
      'Arguments that are missing, not integers or violate (v-k-1)u = k(k-l-1) end with a nonzero status and print no answer.',
      ['inputs', 'configurations'], 'all parameters in the domain that solve quickly, including orders above 32; all malformed argument lists; terminal and non-terminal output',
      'No test runs the command line.', ['srg/__main__.py', 'srg/pprint.py', 'srg/sorter.py'], [('__main__ block', 'srg/__main__.py')], ['standard output and exit status of the process'],
      technique='runtime monitoring: parsed process output compared with the reference model'),
    P('C21', 'The database command line lists and draws what is stored',
      'python -m srg.database, alone or with list, prints all problem names; list v k l u prints exactly the stored matrices; draw v k l u writes one PNG per stored solution, named srg_v_k_l_u_i.png in the current directory and nowhere else, and each drawing has v labelled vertices and exactly the edges of that solution. '
      'Unknown commands given with parameters, unknown problems and parameters violating (v-k-1)u = k(k-l-1) end with a nonzero status and write no file.',
      ['inputs'], 'all stored problems and commands', 'No test runs the command line or the drawing.',
      ['srg/database/__main__.py', 'srg/database/__init__.py'], [('command dispatch', 'srg/database/__main__.py'), ('draw', 'srg/database/__init__.py')],
      ['process output, files created, figure contents at the moment of saving'], technique='runtime monitoring: parsed process output, file-system diff and recorded figure contents'),
    P('C22', 'Bounded compositions are enumerated completely, once and in order',
      'Enumerating the ways to write a sum s>=0 as an ordered sum of non-negative parts, each at most its given bound, yields every such tuple of integers exactly once and in lexicographic order, and yields nothing when the bounds cannot reach the sum.',
      ['inputs'], 'all s >= 0 and all non-empty sequences of bounds >= 0', 'Tests check three inputs.',
      ['srg/partition.py'], [('enum', 'srg/partition.py')], ['sequence of tuples']),
    P('C23', 'Collapsing and expanding column runs are inverse and lossless',
      'Collapsing a 0/1 matrix keeps one column of every maximal run of equal neighbouring columns, with the length and the position of each run, whatever the number of rows. '
      'Expanding the collapsed matrix by the lengths gives back the original, and neither modifies its input.',
      ['inputs'], 'all 0/1 matrices with at least one row and column, up to 200 rows', 'Tests check one matrix with three rows.',
      ['srg/unique.py'], [('_encode, reduce, expand', 'srg/unique.py')], ['input and outputs']),
    P('C24', 'Answers, questions and partial graphs are faithful value objects',
      'A completed answer turns into the vector that has, in each group, as many leading ones as its value; groups keep their sizes. '
      'Copies of answers and questions are equal to the original and independent of it, equality holds exactly when all parts agree, and negative right hand sides, quotas and bounds are rejected. '
      'Appending a row returns a new, longer partial graph whose new row continues the symmetry and leaves the old one unchanged.',
      ['inputs', 'histories'], 'all group layouts and values, all questions, all sequences of copy / modify / compare / append', 'Tests check two answers and one equality.',
      ['srg/srg.py'], [('Answer, Question, SRG', 'srg/srg.py')], ['constructed objects before and after operations']),
    P('C25', 'The compiled build behaves like the interpreted one',
      'The optional build made by the repository\'s cythonize script compiles, and the compiled modules give the same answers, in the same order, and the same errors as the interpreted sources: '
      'for solving, next-row questions, compositions, column collapsing, parameters and complements.',
      ['configurations', 'inputs'], 'both build configurations; ' + DOM, 'The tests run on the interpreted sources only.',
      ['setup.py', 'cythonize.sh', 'srg/unique.py', 'srg/solver.py'], [('cython build of eight modules', 'cythonize.sh, setup.py')], ['answers of both builds'],
      technique='runtime monitoring: differential execution of the interpreted and the compiled (UBSan-instrumented in the thorough tier) build'),
    P('C26', 'Search states stay consistent, and tracing them is transparent',
      'At every point of a search the question is well formed: one upper bound and one unknown entry per remaining column, nothing negative, no entry above its group size, and no equation without unknowns that has a nonzero right hand side. '
      'Wrapping a step in the tracing helper changes neither its result, nor its effect on the question, nor the exceptions it raises.',
      ['inputs', 'histories'], 'all questions reached by any sequence of simplification and branching steps', 'The invariant check is only reached with tracing enabled, which no test does.',
      ['srg/srg.py', 'srg/utils.py', 'srg/solver.py'], [('Question._invariant_check', 'srg/srg.py'), ('debug', 'srg/utils.py'), ('raiseExceptionIfNotSolvableAfterwards', 'srg/solver.py')],
      ['question after every step'], technique='runtime monitoring: state invariants asserted after every step of the real search'),
    P('C27', 'Elimination keeps exactly the non-negative solutions',
      'Eliminating between equations A x = b with 0/1 coefficients, no zero column and b >= 0 returns a 0/1 system with non-negative right hand sides that has the same non-negative integer solutions, '
      'or reports that there is no solution, which it does only if there is none. Eliminating again changes nothing, contradictory equations are never dropped, and the input is not modified.',
      ['inputs'], 'all 0/1 systems without zero columns, with any number of columns (also above 64) and any b >= 0, redundant and contradictory equations included', 'Tests check four systems.',
      ['srg/gauss_elim.py'], [('elim, _elim, _gauss_elim, _encode, _decode', 'srg/gauss_elim.py')], ['systems before and after']),
    P('C28', 'Results do not depend on interpreter settings',
      'Solving, posing and simplifying questions, eliminating, collapsing, composing, sorting, maximising, complementing, parameter arithmetic and reading the database give the same results, for valid inputs, with assertions enabled or not (python -O, -OO), '
      'and whatever numpy\'s print options and error handling, the random state, the decimal precision, the locale, the current directory and its files, and the thread. Doing so prints nothing, writes no file and leaves these settings as they were.',
      ['configurations', 'inputs'], 'every valid input of these operations, under every combination of interpreter flags and process-wide settings', 'All tests run in one process under the default settings, with assertions on.',
      ['srg/solver.py', 'srg/srg.py', 'srg/unique.py', 'srg/gauss_elim.py', 'srg/bounds.py', 'srg/sorter.py', 'srg/utils.py'],
      [('NoSolution, not assertions, ends a branch', 'srg/solver.py'), ('equal columns are told from their entries', 'srg/unique.py _encode')], ['results, settings, files and standard output of processes started in different ways'],
      technique='runtime monitoring: differential execution under different interpreter settings, with the settings recorded before and after'),
    P('C29', 'Printed forms are complete and traces show every change',
      'The printed form of a question shows, in this order, every equation with its right hand side and all coefficients, one question mark per unknown, the quota, the bounds, and the values, group positions and length of its answer; '
      'the printed forms of answers and of partial graphs of up to 1000 entries show all their numbers. Printing changes nothing. A traced step prints its name, and the question as it was before and as it is after when it changed or when it became invalid, and otherwise that nothing changed. '
      'Every module, run on its own, passes its self check.',
      ['inputs', 'histories'], 'all questions, answers and partial graphs of up to 1000 entries that posing, any sequence of steps and branching lead to', 'No test prints a question or traces a step.',
      ['srg/srg.py', 'srg/utils.py', 'srg/pprint.py'], [('Question.__repr__, Answer.__repr__, SRG.__repr__', 'srg/srg.py'), ('debug', 'srg/utils.py'), ('coloured output', 'srg/pprint.py')], ['printed text and standard output of traced steps'],
      technique='runtime monitoring: printed text of the states of real searches read back and compared with the state'),
    P('C30', 'A search level is advanced completely and split by what is finished',
      'Advancing an unfinished partial graph in normal form gives one partial graph for each candidate next row, one row longer and symmetric with the rows before, each once, and none when a required count is already exceeded; the given one stays as it was. '
      'Splitting any sequence of partial graphs separates those that have all their rows from the others, loses none and keeps their order. '
      'Sorting equations by their right hand sides, in place, puts the right hand sides in ascending order and leaves every row of coefficients with its own right hand side.',
      ['inputs'], 'all partial graphs of two or more normal-form rows, all sequences of partial graphs, and systems of equations of any size', 'Tests advance through solving a few parameters only; which branches a level lost shows only in some answer being absent.',
      ['srg/solver.py', 'srg/srg.py', 'srg/gauss_elim.py'],
      [('advance, partition_by_done', 'srg/solver.py'), ('append_and_return_new, solved', 'srg/srg.py'), ('sort', 'srg/gauss_elim.py')], ['partial graphs and arrays before and after each call']),
]

NOT_APPLICABLE = []


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in TABLE:
            assert len(p['title']) <= 80, p['title']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'],
                             'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                             'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                             'observe_at': p['observe'], 'hook_needed': None}}
            f.write(json.dumps(d) + '\n')
    have = [p for p in TABLE if os.path.exists(os.path.join(VERIF, 'mon', 'checks', p['id'].lower() + '.py'))]
    out = {'version': 1, 'setup_cmd': 'bash ./setup.sh',
           'checks': [{'property': p['id'], 'quick_cmd': f'VERIF_TIER=quick ./check {p["id"]}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {p["id"]}',
                       'evidence_file': f'evidence/{p["id"]}.json', 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in have],
           'not_applicable': NOT_APPLICABLE + [{'property': p['id'], 'reason': 'check not built yet'} for p in TABLE if p not in have],
           'notes': 'No hooks in /repo: the monitors drive and observe public functions of the unmodified sources. ./check ID --replay FILE re-runs a recorded failing case.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


main()
