"""Catalogue of the package's public operations with symbolic arguments.

Every entry builds its inputs in a fresh state and runs the operation; the
inputs (receiver and arguments) are what a caller owns."""
from .harness import H
from .terms import mk, K, NONE, TRUE
from .api import ax


class Entry(object):
    def __init__(self, name, mod, cls, fn, build, tags):
        self.name, self.mod, self.cls, self.fn, self.build = name, mod, cls, fn, build
        self.tags = set(tags)

    def run(self, root, repo=None, pre=None):
        h = H(root=root, repo=repo)
        recv, args = self.build(h)
        h.settle()
        if pre:
            pre(h)
        self.recv, self.args = recv, list(args)
        h.initial = h.st.copy()
        if self.cls is None:
            outs = h.fn(self.mod, self.fn, args)
        elif self.fn == '__init__':
            outs = h.E.instantiate(h.st, mk('cl', h.A.cls(self.mod, self.cls).cid), list(args), {}, H0)
        else:
            outs = h.call(recv, self.fn, args)
        return h, outs


from .api import N0 as H0


def S_(tag='b'):
    return lambda h: h.sub('M', 'B', 'atts', tag)


def catalogue():
    out = []

    def add(mod, cls, fn, mk_, *tags, **kw):
        n = '%s.%s' % (cls or mod.split('.')[-1], fn)
        out.append(Entry(n + kw.get('sfx', ''), mod, cls, fn, mk_, tags))

    def cm(fn, args=lambda h: [], *tags, **kw):
        add('fca.context', 'Context', fn, lambda h: (h.context(), args(h)), *tags, **kw)
    atts = lambda h: h.sub('M', 'B', 'atts', 'b')
    objs = lambda h: h.sub('G', 'B', 'objs', 'b')
    attl = lambda h: h.sublist('M', 'B', 'atts', 'b')
    objl = lambda h: h.sublist('G', 'B', 'objs', 'b')
    ain = lambda k: (lambda h: [h.indices('M', 'B', 'b', k)])
    oin = lambda k: (lambda h: [h.indices('G', 'B', 'b', k)])
    x = lambda h: h.name('x')
    y = lambda h: h.name('y')
    Q, W = 'query', 'edit'
    for f in ('get_table', 'get_attributes', 'get_objects', 'get_concept_lattice', 'get_concepts',
              'iterate_concepts', 'get_attribute_canonical_basis', 'attribute_implications_iter',
              'get_attribute_implications', 'get_object_implications', 'examples', 'intents',
              'transpose', 'get_object_attribute_pairs', '__len__', '__repr__', 'clarify_objects',
              'reduce_objects', 'reduce_attributes', 'complementary', 'compound'):
        t = ['heavy'] if f in ('get_concept_lattice', 'get_attribute_canonical_basis') else []
        cm(f, lambda h: [], Q, *t)
    i0 = lambda l: (lambda h: [mk('isy', 'i_' + l)])
    cm('get_object_intent_by_index', i0('G'), Q)
    cm('get_attribute_extent_by_index', i0('M'), Q)
    cm('__getitem__', i0('G'), Q)
    cm('get_object_intent', lambda h: [x(h)], Q)
    cm('get_attribute_extent', lambda h: [x(h)], Q)
    cm('get_value', lambda h: [x(h), y(h)], Q)
    for f in ('oprime', 'oclosure'):
        cm(f, lambda h: [objs(h)], Q, sfx='[set]')
        cm(f, lambda h: [objl(h)], Q, sfx='[list]')
    for f in ('aprime', 'aclosure', 'associative_aclosure', 'associative_aprime'):
        cm(f, lambda h: [atts(h)], Q, sfx='[set]')
        cm(f, lambda h: [attl(h)], Q, sfx='[list]')
    for f in ('oprime_inds', 'oclosure_inds', 'associative_oprime_inds'):
        for k in ('set', 'list'):
            cm(f, oin(k), Q, sfx='[%s]' % k)
    for f in ('aprime_inds', 'aclosure_inds', 'associative_aprime_inds'):
        for k in ('set', 'list'):
            cm(f, ain(k), Q, sfx='[%s]' % k)
    cm('extract_subcontext_filtered_by_attributes', lambda h: [attl(h)], Q)
    cm('extract_subcontext', lambda h: [attl(h)], Q)
    cm('__mul__', lambda h: [h.context('d', g=ax('M'), m=ax('N'), gname='atts', mname='attsd')], Q)
    cm('__eq__', lambda h: [h.context('e')], Q)
    cm('__deepcopy__', lambda h: [h.E_new_dict()], Q)
    # ---- edits
    cm('add_object', lambda h: [h.row('M', 'r'), x(h)], W)
    cm('add_object_with_intent', lambda h: [atts(h), x(h)], W)
    cm('add_attribute', lambda h: [h.row('G', 'r'), x(h)], W)
    cm('add_attribute_with_extent', lambda h: [objs(h), x(h)], W)
    cm('set_attribute_extent', lambda h: [objs(h), x(h)], W)
    cm('set_object_intent', lambda h: [atts(h), x(h)], W)
    cm('delete_object', lambda h: [x(h)], W)
    cm('delete_attribute', lambda h: [x(h)], W)
    cm('delete_attributes', lambda h: [attl(h)], W)
    cm('rename_object', lambda h: [x(h), y(h)], W)
    cm('rename_attribute', lambda h: [x(h), y(h)], W)
    cm('remove_empty_objects', lambda h: [], W)
    # arbitrary (also unsuitable) arguments
    any_ = dict(sfx='[any]')
    anyset = lambda h: h.names('u')
    cm('add_object', lambda h: [h.row('N', 'r'), x(h)], W, **any_)
    cm('add_attribute', lambda h: [h.row('N', 'r'), x(h)], W, **any_)
    cm('add_object_with_intent', lambda h: [anyset(h), x(h)], W, **any_)
    cm('add_attribute_with_extent', lambda h: [anyset(h), x(h)], W, **any_)
    cm('set_object_intent', lambda h: [anyset(h), x(h)], W, **any_)
    cm('set_attribute_extent', lambda h: [anyset(h), x(h)], W, **any_)
    cm('delete_attributes', lambda h: [h.nameslist('u')], W, **any_)
    for f in ('oprime', 'oclosure', 'aprime', 'aclosure', 'associative_aclosure',
              'associative_aprime', 'extract_subcontext', 'extract_subcontext_filtered_by_attributes'):
        cm(f, lambda h: [h.nameslist('u')], Q, **any_)
    add('fca.context', 'Context', '__init__',
        lambda h: (None, [h.table('t'), h.nameslist('u'), h.nameslist('w')]), Q)

    # ---- closure operators and bases
    co = 'fca.algorithms.closure_operators'
    for f in ('oprime', 'oclosure'):
        add(co, None, f, lambda h: (None, [objs(h), h.context()]), Q)
    for f in ('aprime', 'aclosure'):
        add(co, None, f, lambda h: (None, [atts(h), h.context()]), Q)
    for f in ('simple_closure', 'lin_closure'):
        add(co, None, f, lambda h: (None, [atts(h), h.implications()]), Q)
    dg = 'fca.algorithms.dg_basis'
    for f in ('compute_dg_basis', 'compute_dg_basis_simple', 'dg_basis_iter_simple'):
        add(dg, None, f, lambda h: (None, [h.context()]), Q)
    add(dg, None, 'compute_partial_dg_basis', lambda h: (None, [h.partial()]), Q)
    add('fca.algorithms.aibasis', None, 'compute_canonical_basis', lambda h: (None, [h.context()]), Q)
    ic = 'fca.algorithms.implication_covers'
    add(ic, None, 'compute_implication_cover', lambda h: (None, [h.context()]), Q)
    add(ic, None, 'print_basis', lambda h: (None, [h.implications()]), Q)
    add(ic, None, 'is_redundant', lambda h: (None, [h.implication('u'), h.implications()]), Q)
    add(ic, None, 'is_new', lambda h: (None, [h.implication('u'), h.implications()]), Q)
    add(ic, None, 'is_subsumed_simply', lambda h: (None, [h.implication('u'), h.implication('v')]), Q)
    add(ic, None, 'is_subsumed', lambda h: (None, [h.implication('u'), h.implication('v')]), Q)
    for f in ('remove_subsumed_plus', 'remove_subsumed', 'remove_subsumed_simply'):
        add(ic, None, f, lambda h: (None, [h.implication('u'), h.implications()]), 'update')
    add(ic, None, 'minimize', lambda h: (None, [h.implications()]), 'update')
    # ---- concepts
    no = 'fca.algorithms.norris'
    add(no, None, 'norris', lambda h: (None, [h.context()]), Q)
    add(no, None, 'iterative_norris', lambda h: (None, [h.context()]), Q)
    add(no, None, 'compute_covering_relation', lambda h: (None, [h.system()]), Q)
    fa = 'fca.algorithms.factors'
    add(fa, None, 'make_factor_cxts', lambda h: (None, [h.concepts()]), Q)
    for f in ('algorithm2', 'algorithm2_weighted', 'algorithm2_w_condition'):
        add(fa, None, f, lambda h: (None, [h.context()]), Q)
    add('fca.algorithms.scaling', None, 'scale_mvcontext', lambda h: (None, [h.mv(), h.scales()]), Q)
    add('fca.compare_context', None, 'subseteq_table', lambda h: (None, [h.table('t'), h.table('u')]), Q)
    # ---- concept, system, lattice
    for f in ('__str__', '__repr__', '__hash__', 'pairs'):
        add('fca.concept', 'Concept', f, lambda h: (h.concept(), []), Q)
    add('fca.concept', 'Concept', '__eq__', lambda h: (h.concept(), [h.concept('z')]), Q)
    cs = ('fca.concept_system', 'ConceptSystem')
    for f in ('get_top_concept', 'get_bottom_concept', '__len__', '__str__'):
        add(cs[0], cs[1], f, lambda h: (h.system(), []), Q)
    for f in ('filter', 'ideal', '__contains__', 'index', 'parents', 'children'):
        add(cs[0], cs[1], f, lambda h: (h.system(), [h.concept()]), Q, 'cache')
    for f in ('append', 'remove'):
        add(cs[0], cs[1], f, lambda h: (h.system(), [h.concept()]), W)
    add(cs[0], cs[1], 'compute_covering_relation', lambda h: (h.system(), []), Q, 'cache')
    cl = ('fca.concept_lattice', 'ConceptLattice')
    for f in ('get_context', 'get_concepts', 'get_top_concept', 'get_bottom_concept', '__len__',
              '__str__'):
        add(cl[0], cl[1], f, lambda h: (h.lattice(), []), Q)
    for f in ('filter', 'ideal', '__contains__', 'index', 'parents', 'children'):
        add(cl[0], cl[1], f, lambda h: (h.lattice(), [h.concept()]), Q)
    # ---- implications
    for k in ('Implication', 'NegativeImplication'):
        for f in ('get_premise', 'get_conclusion', 'get_reduced_conclusion', '__repr__', '__hash__'):
            add('fca.implication', k, f, lambda h, k=k: (h.implication('u', k), []), Q)
        add('fca.implication', k, 'is_respected',
            lambda h, k=k: (h.implication('u', k), [atts(h)]), Q, sfx='[set]')
        add('fca.implication', k, 'is_respected',
            lambda h, k=k: (h.implication('u', k), [h.pair('b', 'd')]), Q, sfx='[partial]')
        add('fca.implication', k, '__eq__',
            lambda h, k=k: (h.implication('u', k), [h.implication('v', k)]), Q)
    # ---- partial contexts
    pc = ('fca.partial_context', 'PartialContext')
    for f in ('transpose', '__repr__', 'get_attribute_implications', 'intents'):
        add(pc[0], pc[1], f, lambda h: (h.partial(), []), Q)
    add(pc[0], pc[1], '__deepcopy__', lambda h: (h.partial(), [h.E_new_dict()]), Q)
    add(pc[0], pc[1], 'xq_aclosure', lambda h: (h.partial(), [atts(h)]), Q)
    add(pc[0], pc[1], 'add_object_with_intent', lambda h: (h.partial(), [h.pair('b', 'd'), x(h)]), W)
    add(pc[0], pc[1], 'complete', lambda h: (h.partial(), [h.implications()]), W)
    # ---- many-valued
    mv = ('fca.mvcontext', 'ManyValuedContext')
    for f in ('get_objects', 'get_attributes', 'get_table', '__len__'):
        add(mv[0], mv[1], f, lambda h: (h.mv(), []), Q)
    add(mv[0], mv[1], 'extract_subcontext', lambda h: (h.mv(), [h.sublist('V', 'B', 'mvatts', 'b')]), Q)
    # ---- files
    rw = 'fca.readwrite.'
    cx = lambda h: h.context(atype='str') if False else h.context()
    for m, f in (('cxt', 'write_cxt'), ('cxt', 'uwrite_cxt'), ('fimi', 'write_fimi')):
        add(rw + m, None, f, lambda h: (None, [h.context(), h.path()]), Q, 'file')
    for f in ('write_mv_txt', 'uwrite_mv_txt'):
        add(rw + 'tab_separated', None, f, lambda h: (None, [h.mv(), h.path()]), Q, 'file')
    for f in ('write_dot', 'uwrite_dot'):
        add(rw + 'dot', None, f, lambda h: (None, [h.system(), h.path()]), Q, 'file')
    for f in ('find_own_objects', 'find_own_attributes'):
        add(rw + 'dot', None, f, lambda h: (None, [h.system()]), Q)
    add(rw + 'xml_', None, 'write_xml', lambda h: (None, [h.path(), h.system()]), Q, 'file')
    for m, f in (('cxt', 'read_cxt'), ('cxt', 'uread_cxt'), ('comma_separated', 'read_mv_csv'),
                 ('comma_separated', 'read_csv'), ('tab_separated', 'read_txt_with_names'),
                 ('tab_separated', 'read_txt'), ('tab_separated', 'read_mv_txt'),
                 ('tab_separated', 'uread_mv_txt'), ('xml_', 'read_xml'), ('xml_', 'uread_xml')):
        add(rw + m, None, f, lambda h: (None, [h.path()]), Q, 'file', 'read')
    # ---- exploration
    ex = ('fca.algorithms.exploration', 'BasicExploration')
    X = 'explore'
    be = lambda h: h.basic_exploration()
    i_ = mk('isy', 'i_L')
    db = ('fca.algorithms.exploration_.exploration', 'ExplorationDB')
    e2 = 'fca.algorithms.exploration2.exploration'

    def inner(h, *path):
        o = h.session()
        for f in path:
            o = h.E.getf(h.st, o, f)
        return o
    # given sets of known names, and arbitrary ones
    for oset, aset, kw in ((objs, atts, {}), (anyset, anyset, any_)):
        for f, s in (('counter_example_for_attr_implication', aset),
                     ('counter_example_for_obj_implication', oset)):
            add(ex[0], ex[1], f, lambda h, s=s: (be(h), [x(h), s(h), i_]), X, **kw)
        for f, s in (('add_object', aset), ('add_attribute', oset), ('edit_attribute', oset),
                     ('edit_object', aset)):
            add(ex[0], ex[1], f, lambda h, s=s: (be(h), [s(h), x(h)]), X, **kw)
        for f, s in (('add_example', aset), ('add_attribute', oset)):
            add(db[0], db[1], f, lambda h, s=s: (h.db(), [x(h), s(h)]), X, **kw)
        for f, s in (('edit_example', aset), ('edit_attribute', oset)):
            add(db[0], db[1], f, lambda h, s=s: (h.db(), [y(h), x(h), s(h)]), X, **kw)
        add(e2, 'ExplorationContext', 'add_object',
            lambda h, s=aset: (inner(h, '_cxt'), [x(h), s(h)]), X, **kw)
        add(e2, 'ExplorationSession', 'reject_implication',
            lambda h, s=aset: (h.session(), [h.implication('u'), x(h), s(h)]), X, **kw)
    for f in ('confirm_attribute_implication', 'confirm_object_implication'):
        add(ex[0], ex[1], f, lambda h: (be(h), [i_]), X)
    for f in ('check_extent_for_conflicts', 'check_intent_for_conflicts'):
        add(ex[0], ex[1], f, lambda h: (be(h), [anyset(h)]), Q)
    add(ex[0], ex[1], '__repr__', lambda h: (be(h), []), Q)
    add(ex[0], ex[1], '__init__', lambda h: (h.stub_bases(), [h.context()]), Q)
    add(db[0], db[1], 'delete_example', lambda h: (h.db(), [x(h)]), X)
    add(db[0], db[1], 'delete_attribute', lambda h: (h.db(), [x(h)]), X)
    add(db[0], db[1], 'confirm_implication', lambda h: (h.db(), [h.implication('u')]), X)
    add(db[0], db[1], 'unconfirm_implication', lambda h: (h.db(), [h.implication('u')]), X)
    for f in ('get_open_implications', 'get_base', 'get_object_names', 'get_attribute_names'):
        add(db[0], db[1], f, lambda h: (h.db(), []), Q)
    for f in ('get_objects', 'get_attributes'):
        add(e2, 'ExplorationContext', f, lambda h: (inner(h, '_cxt'), []), Q)
    for f in ('get_intent', 'get_extent'):
        add(e2, 'ExplorationContext', f, lambda h: (inner(h, '_cxt'), [x(h)]), Q)
    add(e2, 'Basis', 'respect_background_knowledge', lambda h: (inner(h, '_basis'), [anyset(h)]), Q)
    for f in ('get_dg_basis', 'get_background_implications'):
        add(e2, 'Basis', f, lambda h: (inner(h, '_basis'), []), Q)
    for f in ('get_accepted_implications', 'get_candidates', 'get_context'):
        add(e2, 'ExplorationSession', f, lambda h: (h.session(), []), Q)
    add(e2, 'ExplorationSession', 'accept_implication', lambda h: (h.session(), [h.implication('u')]), X)
    # ---- filtering
    fl = 'fca.algorithms.filtering.'
    for m, f in (('extentsize', 'compute_extent_size'), ('intentsize', 'compute_intent_size'),
                 ('probability', 'compute_probability'), ('separation', 'compute_separation_index'),
                 ('stability', 'compute_istability'), ('stability', 'compute_estability')):
        add(fl + m, None, f, lambda h: (None, [h.lattice()]), Q)
    return out
