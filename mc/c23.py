"""
C23: text renderings of graphs are complete and parse back to the same graph.

Every labelled digraph / graph up to a few nodes is rendered under every option
and read back by an independent column based reader of the documented notation.
"""
import io
import itertools

import networkx as nx

from mc.core import Family, Outcome, Violation, key

LEVEL = 'model_checking'

BOUND_NAMES = 'abcde'
GLYPHS = {
    ('d', 0): dict(last='└─╼ ', mid='├─╼ ', back='╾', vert='╽', tlast='╙── ', tmid='╟── ', empty='╙',
                   wf='╎   ', wt='│   '),
    ('u', 0): dict(last='└── ', mid='├── ', back='─', vert='│', tlast='╙── ', tmid='╟── ', empty='╙',
                   wf='╎   ', wt='│   '),
    ('d', 1): dict(last='L-> ', mid='|-> ', back='<-', vert='!', tlast='+-- ', tmid='+-- ', empty='+',
                   wf=':   ', wt='|   '),
    ('u', 1): dict(last='L-- ', mid='|-- ', back='-', vert='|', tlast='+-- ', tmid='+-- ', empty='+',
                   wf=':   ', wt='|   '),
}
MORE = '...'


def pairs(kind, n, loops):
    if kind == 'd':
        return [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    return [(i, j) for i in range(n) for j in range(i, n) if loops or i != j]


def make(kind, n, loops, mask, attr=None):
    g = nx.DiGraph() if kind == 'd' else nx.Graph()
    g.add_nodes_from(BOUND_NAMES[:n])
    for k, (i, j) in enumerate(pairs(kind, n, loops)):
        if mask >> k & 1:
            g.add_edge(BOUND_NAMES[i], BOUND_NAMES[j])
    return g


class Reader:
    """Independent reader of the notation, checking the drawing as it goes."""

    def __init__(self, lines, kind, asc):
        g = GLYPHS[kind, asc]
        self.shown, self.tree, self.back, self.more = [], [], [], []
        self.roots = []
        self.corners = []  # (line number, column, parent, glyph kind)
        col = {}
        pend = None
        for ln, line in enumerate(lines):
            k, rest = 0, line
            units = []
            while rest[:4] in ('    ', g['wf'], g['wt']):
                units.append(rest[:4])
                rest = rest[4:]
                k += 1
            kind_ = None
            for name in ('tlast', 'tmid', 'last', 'mid'):
                if rest[:4] == g[name] and ((name[0] == 't') == (k == 0)):
                    kind_ = name
                    rest = rest[4:]
                    break
            if kind_ is None:
                if rest == g['vert']:
                    if pend is not None:
                        raise Violation(f'two vertical edges in a row: {lines}')
                    pend = units
                    continue
                if pend is None or pend != units:
                    raise Violation(f'line {ln} has no edge glyph: {lines}')
            elif pend is not None:
                raise Violation(f'vertical edge leads nowhere: {lines}')
            vertical, pend = pend is not None, None
            label, sep, tail = rest.partition(f' {g["back"]} ')
            parent = col.get(k)
            if k == 0:
                self.roots.append(label)
            elif parent is None:
                raise Violation(f'line {ln} hangs under nothing: {lines}')
            self.corners.append((ln, k, parent, kind_, tuple(units), vertical))
            if label.strip() == MORE:
                if parent is None:
                    raise Violation(f'an ellipsis at top level: {lines}')
                self.more.append(parent)
                for c in [c for c in col if c > k]:
                    del col[c]
                continue
            if label.strip() != label or not label:
                raise Violation(f'unreadable label {label!r}: {lines}')
            self.shown.append(label)
            if parent is not None:
                self.tree.append((parent, label))
            if sep:
                self.back += [(p, label) for p in tail.split(', ')]
            here = k if vertical else k + 1
            for c in [c for c in col if c > here]:
                del col[c]
            col[here] = label
        if pend is not None:
            raise Violation(f'vertical edge at the end: {lines}')

    def check_drawing(self, kind, asc, lines, forest=True):
        """mid/last corners and the verticals between them are consistent"""
        g = GLYPHS[kind, asc]
        for i, (ln, k, parent, kd, units, vert) in enumerate(self.corners):
            if k == 0 and not forest:
                continue
            if vert:
                continue
            more = False
            for ln2, k2, p2, kd2, units2, v2 in self.corners[i + 1:]:
                if k2 < k or (v2 and k2 <= k):
                    break
                if k2 == k:
                    more = True
                    break
                want = g['wf'] if k == 0 else g['wt']
                # the line between two siblings must (not) be drawn
                sib = any(k3 == k and not v3 for _, k3, p3, _, _, v3 in self._until(i + 1, k))
                if (units2[k] == want) != sib:
                    raise Violation(f'the branch at column {k} is drawn wrong in line {ln2}: {lines}')
            if not (asc and k == 0) and more != (kd in ('mid', 'tmid')):
                raise Violation(f'line {ln} uses the wrong corner: {lines}')

    def _until(self, i, k):
        for c in self.corners[i:]:
            if c[1] < k:
                return
            yield c


def norm(kind, edges):
    if kind == 'd':
        return sorted(edges)
    return sorted(tuple(sorted(e)) for e in edges)


def reach(g, sources):
    out = set()
    for s in sources:
        out |= {s} | set(nx.descendants(g, s))
    return out


def render(g, **kw):
    from delayed_image.util import util_network_text as unt
    return list(unt.generate_network_text(g, **kw))


def minimal_sources(g, roots, kind):
    if kind == 'u':
        return len(roots) == nx.number_connected_components(g)
    cond = nx.condensation(g)
    return len(roots) == sum(d == 0 for _, d in cond.in_degree())


def run_full(case):
    """No limit: everything is shown, once."""
    from delayed_image.util import util_network_text as unt
    kind, n, loops, mask, asc, vert, sources = case
    g = make(kind, n, loops, mask)
    kw = dict(ascii_only=bool(asc), vertical_chains=bool(vert))
    if sources is not None:
        kw['sources'] = list(sources)
    lines = render(g, **kw)
    if n == 0:
        if lines != [GLYPHS[kind, asc]['empty']]:
            raise Violation(f'empty graph: {lines}')
        return Outcome([key(lines)], 1, trivial=True)
    r = Reader(lines, kind, asc)
    want_nodes = set(g.nodes) if sources is None else reach(g, sources)
    if sorted(r.shown) != sorted(want_nodes):
        raise Violation(f'nodes {sorted(r.shown)} are shown, expected {sorted(want_nodes)}: {lines}')
    edges = norm(kind, r.tree + r.back)
    want = norm(kind, [e for e in g.edges if e[1] in want_nodes or (kind == 'u' and e[0] in want_nodes)])
    if edges != want:
        raise Violation(f'edges {edges} are shown, the graph has {want}: {lines}')
    r.check_drawing(kind, asc, lines, forest=sources is None)
    if sources is None:
        if not minimal_sources(g, r.roots, kind):
            raise Violation(f'the automatic sources {r.roots} are not minimal: {lines}')
    else:
        for s in r.roots:
            if s not in sources:
                raise Violation(f'{s} is drawn as a source: {lines}')
    tree = set(norm(kind, r.tree))
    for u in r.shown:
        out = [e for e in norm(kind, g.edges(u))]
        hidden = [e for e in out if e not in tree]
        if r.more.count(u) > 1:
            raise Violation(f'{u} has several ellipses: {lines}')
        if kind == 'd' and (u in r.more) != bool(hidden):
            raise Violation(f'{u} has connections shown elsewhere {hidden}, ellipsis: {u in r.more}: {lines}')
        if kind == 'u' and u in r.more and not hidden:
            raise Violation(f'{u} has an ellipsis for nothing: {lines}')
    # the library parser
    states = [key(lines)]
    if g.number_of_edges():
        back = unt.parse_network_text(list(lines))
        if sources is None and set(back.nodes) != set(g.nodes):
            raise Violation(f'parsed nodes {sorted(back.nodes)}: {lines}')
        drawn = bool(want)
        if drawn and back.is_directed() != (kind == 'd'):
            raise Violation(f'parsed as {"" if back.is_directed() else "un"}directed: {lines}')
        if norm(kind, back.edges) != want:
            raise Violation(f'parsed edges {norm(kind, back.edges)}, expected {want}: {lines}')
    else:
        back = unt.parse_network_text(iter(lines))
        if set(back.nodes) != set(want_nodes) or back.number_of_edges():
            raise Violation(f'parsed as {back}: {lines}')
    return Outcome(states, 2, trivial=not want)


def run_limit(case):
    """A depth limit or collapsed nodes only omit parts, and say so."""
    kind, n, loops, mask, asc, vert, depth, collapsed = case
    g = make(kind, n, loops, mask)
    for c in collapsed:
        g.nodes[c]['collapse'] = True
    kw = dict(ascii_only=bool(asc), vertical_chains=bool(vert))
    lines = render(g, max_depth=depth, **kw)
    if depth == 0:
        if len(lines) != 1 or MORE not in lines[0]:
            raise Violation(f'nothing may be shown at depth 0: {lines}')
        return Outcome([key(lines)], 1, trivial=True)
    r = Reader(lines, kind, asc)
    if len(set(r.shown)) != len(r.shown) or not set(r.shown) <= set(g.nodes):
        raise Violation(f'nodes {r.shown}: {lines}')
    alledges = set(norm(kind, g.edges))
    drawn = norm(kind, r.tree + r.back)
    if not set(drawn) <= alledges or (kind == 'd' and len(set(drawn)) != len(drawn)):
        raise Violation(f'edges {drawn}, the graph has {sorted(alledges)}: {lines}')
    dep = {}
    for u in r.roots:
        dep[u] = 1
    for p, c in r.tree:
        dep[c] = dep[p] + 1
    if depth is not None and not vert and max(dep.values()) > depth:
        raise Violation(f'a node below depth {depth} is shown: {lines}')
    tree = set(norm(kind, r.tree))
    if kind == 'd':
        top = {e for e in alledges}
    for u in r.shown:
        atlimit = u in collapsed or (depth is not None and not vert and dep[u] == depth)
        if atlimit and any(p == u for p, _ in r.tree):
            raise Violation(f'{u} is at the limit but its children are shown: {lines}')
        succ = set(g.adj[u])
        if not atlimit and not (vert and depth is not None):
            if not succ <= set(r.shown):
                raise Violation(f'{u} is not at the limit but {sorted(succ - set(r.shown))} is omitted: {lines}')
        hidden = {e for e in norm(kind, g.edges(u)) if e not in tree}
        if kind == 'u':
            hidden -= set(drawn)
        if bool(hidden) and u not in r.more:
            # undirected edges may be indicated at either end
            if kind == 'd' or any(not (set(e) & set(r.more)) for e in hidden):
                raise Violation(f'edges {sorted(hidden)} of {u} are omitted silently: {lines}')
    if depth is None and not collapsed or (depth is not None and depth > n and not collapsed):
        if lines != render(g, **kw):
            raise Violation(f'a limit beyond the depth changes the text: {lines}')
    return Outcome([key(lines)], 1)


def run_label(case):
    """Labels, writers and the older forest interface give the same drawing."""
    from delayed_image.util import util_network_text as unt
    kind, n, loops, mask, asc, vert = case
    g = make(kind, n, loops, mask)
    kw = dict(ascii_only=bool(asc), vertical_chains=bool(vert))
    plain = render(g, **kw)
    names = {u: 'L' + u.upper() for u in g.nodes}
    for k, u in enumerate(g.nodes):
        if k != 1:
            g.nodes[u]['label'] = names[u]
        g.nodes[u]['other'] = 'O' + u
    lab = {u: g.nodes[u].get('label', u) for u in g.nodes}
    for wl, f in [(True, lab.get), (False, lambda u: u), ('label', lab.get), ('other', lambda u: 'O' + u)]:
        got = render(g, with_labels=wl, **kw)
        want = []
        for line in plain:
            out = ''
            for ch in line:
                out += f(ch) if ch in g.nodes else ch
            want.append(out)
        if got != want:
            raise Violation(f'with_labels={wl}: {got}, expected {want}')
    buf = io.StringIO()
    unt.write_network_text(g, buf, with_labels=False, **kw)
    if buf.getvalue() != ''.join(x + '\n' for x in plain):
        raise Violation(f'written to a file: {buf.getvalue()!r}')
    got = []
    unt.write_network_text(g, got.append, with_labels=False, end='', **kw)
    if got != plain:
        raise Violation(f'written by a callable: {got}')
    if not vert:
        forest = n == 0 or nx.is_forest(g)
        try:
            text = unt.forest_str(g, with_labels=False, ascii_only=bool(asc))
        except nx.NetworkXNotImplemented:
            if forest:
                raise Violation('forest_str refuses a forest')
        else:
            if not forest:
                raise Violation('forest_str accepts a graph which is no forest')
            if text != '\n'.join(plain):
                raise Violation(f'forest_str: {text!r}, expected {plain}')
            got = []
            if unt.forest_str(g, with_labels=False, ascii_only=bool(asc), write=got.append) is not None or got != plain:
                raise Violation(f'forest_str with write: {got}')
    return Outcome([key(plain)], 8, trivial=n == 0)


def graphs(kind, n, loops):
    for mask in sorted(range(2 ** len(pairs(kind, n, loops))), key=lambda m: (bin(m).count('1'), m)):
        yield kind, n, loops, mask


OPTS = [(a, v) for v in (0, 1) for a in (0, 1)]


def full_cases(spec, opts):
    def gen():
        for k, n, loops in spec:
            for g in graphs(k, n, loops):
                for o in opts:
                    yield [*g, *o, None]
    return gen


def source_cases(spec):
    def gen():
        for k, n, loops in spec:
            names = BOUND_NAMES[:n]
            srcs = [''.join(p) for r in range(1, n + 1) for p in itertools.permutations(names, r)]
            srcs += ['aa', 'aba'][:n]
            for g in graphs(k, n, loops):
                for s in srcs:
                    for a, v in [(0, 0), (1, 1)]:
                        yield [*g, a, v, s]
    return gen


def limit_cases(spec, depths, ncollapse):
    def gen():
        for k, n, loops in spec:
            names = BOUND_NAMES[:n]
            cols = [''.join(c) for r in range(ncollapse + 1) for c in itertools.combinations(names, r)]
            for g in graphs(k, n, loops):
                for d in depths:
                    for c in cols:
                        for a, v in [(0, 0), (0, 1)]:
                            yield [*g, a, v, d, c]
    return gen


def label_cases(spec):
    def gen():
        for k, n, loops in spec:
            for g in graphs(k, n, loops):
                for a, v in OPTS:
                    yield [*g, a, v]
    return gen


def families(tier):
    D3 = [('d', n, True) for n in range(4)]
    U3 = [('u', n, True) for n in range(4)]
    fams = [
        Family('full', full_cases(D3 + U3 + [('d', 4, False), ('u', 4, True), ('u', 5, False)], OPTS), run_full,
               'every digraph of 0-3 nodes with self loops and of 4 nodes without, every graph of 0-4 nodes with '
               'self loops and of 5 without, ascii or not, vertical chains or not'),
        Family('sources', source_cases([('d', 1, True), ('d', 2, True), ('d', 3, False), ('u', 1, True), ('u', 2, True),
                                        ('u', 3, False), ('u', 4, False)]), run_full,
               'the same with every ordered choice of sources (and repeated sources), up to 3 (directed) or 4 nodes'),
        Family('limits', limit_cases([('d', 1, True), ('d', 2, True), ('d', 3, True), ('u', 2, True), ('u', 3, True),
                                      ('u', 4, False)], (None, 0, 1, 2, 3, 9), 2), run_limit,
               'every digraph of 1-3 nodes with self loops, every graph of up to 4 nodes, every depth limit and up to '
               'two collapsed nodes'),
        Family('deep_limits', limit_cases([('d', 4, False)], (1, 2, 3, 4, 5), 0), run_limit,
               'every digraph of 4 nodes, every depth limit'),
        Family('labels', label_cases(D3 + U3), run_label,
               'every graph of up to 3 nodes: labels, label attributes, writers, forest_str'),
    ]
    if tier == 'thorough':
        fams += [
            Family('full_deep', full_cases([('d', 4, True), ('u', 5, True)], OPTS), run_full,
                   'every digraph of 4 nodes with self loops, every graph of 5 nodes with self loops'),
            Family('full_5', full_cases([('d', 5, False)], [(0, 0), (1, 1)]), run_full,
                   'every digraph of 5 nodes without self loops'),
            Family('sources_deep', source_cases([('d', 4, False), ('d', 3, True)]), run_full,
                   'every ordered choice of sources on 4 nodes'),
            Family('limits_deep', limit_cases([('d', 4, False), ('u', 4, True), ('u', 5, False)], (None, 1, 2, 3, 4), 4),
                   run_limit, 'every digraph of 4 nodes, every graph of 5, every set of collapsed nodes'),
        ]
    return fams
