"""Solving ends, within a budget of logical steps derived from the size of the exhaustive search."""
from .. import ref, drive, gens, questions, steps

PROPERTY = 'C12'
RULE = ('one case = a batch of questions or complete solves run under a step counter (calls, resumptions and backward jumps in the repository\'s code); '
        'the budget is the number of nodes of the exhaustive assignment tree times a polynomial in the size of the question, or, where that is too much to wait for, about a hundred times the effort going by the reference search; '
        'distinct non-trivial = distinct questions that needed branching or ended without answer, plus distinct parameter sets')
NEED = {'questions_ended': 1500, 'solves_ended': 150, 'steps': 100000, 'solves_without_answer': 80}
ASSUMPTIONS = ['non-termination inside numpy or the standard library is not observed as steps; it would end as inconclusive']
CASE_S = {'quick': 200, 'thorough': 900}


def tree(cols):
    """nodes of the exhaustive tree over the groups of equal columns, in the least favourable order"""
    n, t = 1, 1
    for size in sorted((n for _, n in ref.cells_of(cols)), reverse=True):
        n *= size + 1
        t += n
    return t


def budget(cols, rows):
    s = rows + len(cols) + 4
    return 3000 * s * s * tree(cols)


class Branches:
    """counts the branches that the search opens (0 when it does not branch through solver.fork_enum)"""

    def __enter__(self):
        from srg import solver
        self.solver, self.n, self.real = solver, 0, getattr(solver, 'fork_enum', None)
        if self.real is not None:
            def counted(*a, **kw):
                for child in self.real(*a, **kw):
                    self.n += 1
                    yield child
            solver.fork_enum = counted
        return self

    def __exit__(self, *a):
        if self.real is not None:
            self.solver.fork_enum = self.real


# Exhaustive budgets above this are cut down to it, or to 100 s^2 per node of the reference search if that is more.  The largest
# number of steps seen in a question is 3e5, and the largest ratio to s^2 per node is 1.4: the margin is a factor of about 100.
MOST = 30_000_000


def cases(seed, tier):
    m = {'quick': 3, 'thorough': 40}[tier]
    out = []
    for kind, n, size in (('big', 30, 6), ('mid', 200, 20), ('tiny', 600, 50), ('system', 1600, 100), ('unrelated', 60, 10)):
        out += [(kind, {'seed': seed, 'salt': 'c12', 'i': i, 'n': size}) for i in range(0, n * m, size)]
    ps = [p for p in drive.param_sets(seed, tier) if drive.cost(p) <= (4 if tier == 'quick' else 70)]
    small = [q for q in ps if q[0] <= 11]
    out += [('solve', {'params': b}) for b in drive.batches([q for q in ps if q[0] > 11], 1.5)]
    # the cheapest solves first
    return [('solve', {'params': small[i::8]}) for i in range(8)] + out


def run(kind, p, mon):
    if kind == 'solve':
        for q in p['params']:
            solve(tuple(q), mon)
            if mon.violations:
                return
        return
    for what, par, data in questions.items(kind, p):
        if what == 'prefix':
            cols, b = ref.row_equations(data, *par[1:])
            rows = len(b)
        else:
            cols, b, rows = list(zip(*data[0])), data[1], len(data[1])
        bud = budget(cols, rows)
        small = bud <= MOST
        if not small:
            c = {}
            try:
                if min(b) >= 0:
                    cells = ref.cells_of(cols)
                    ref.boxed_solutions([x for x, _ in cells], [n for _, n in cells], b, 2000, c)
            except ref.TooBig:
                mon.count('questions_left_out')
                continue
            if what == 'system' and tree(cols) > 20000:
                mon.count('questions_left_out')
                continue
            s = rows + len(cols) + 4
            bud = min(bud, max(MOST, 100 * s * s * (c.get('ref_nodes', 0) + 10)))
        q, A, b = questions.pose(what, par, data)
        if q is None:
            continue
        n = 0
        most = tree(cols) - 1
        with Branches() as br, steps.Steps(bud) as st:
            try:
                for _ in br.solver.solve_question(q):
                    n += 1
                over = False
            except steps.OverBudget:
                over = True
        mon.check(br.n <= most, lambda: f'{br.n} branches were opened; assigning a count to every group of equal columns takes {most}: A={A} b={b} {par or ""}', 'too-many-branches')
        mon.count('branches', br.n)
        mon.count('questions_with_branches', br.n > 0)
        mon.check(not over, lambda: f'the question had not ended after {st.n} steps; its exhaustive tree has {tree(cols)} nodes: A={A} b={b} {par or ""}', 'no-end')
        mon.count('questions_ended')
        mon.count('decidable_by_budget', small)
        mon.count('steps', st.n)
        mon.count('answers', n)
        mon.seen(str(A), str(b))
        if mon.violations:
            return
        mon.sample({'what': what, 'params': par, 'steps': st.n, 'budget': bud, 'tree': tree(cols), 'answers': n})


def solve(q, mon):
    """the budget of a complete solve: about a hundred times what it takes, going by the nodes of the reference search (the largest ratio seen is 1.4)"""
    c = {}
    ref.enumerate_nf(*q, counter=c)
    total = max(MOST // 30, 100 * q[0] ** 2 * (c.get('ref_nodes', 0) + 10))
    n = 0
    from srg import solver
    start = drive.start(drive.seed_matrix(*q))
    with steps.Steps(total) as st:
        try:
            for _ in solver.solve(start):
                n += 1
            over = False
        except steps.OverBudget:
            over = True
    mon.check(not over, lambda: f'solve{q} had not ended after {st.n} steps', 'no-end')
    mon.count('solves_ended')
    mon.count('solves_without_answer', n == 0)
    mon.count('steps', st.n)
    mon.seen(q)
    mon.sample({'params': q, 'steps': st.n, 'budget': total, 'answers': n})
