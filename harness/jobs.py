ASSUMPTIONS = [
 "C library functions are the engine's models (file and formatted I/O in memory, allocation never fails); sampled paths are compared byte for byte with the natively compiled programs",
 "utf8proc is modelled by its property tables dumped from the installed library and a re-implementation of its UTF-8 coder",
 "source compiled by clang 18 to LLVM IR (-ansi), natively by gcc 13",
]
def T(name, mode, **p):
    kw = {k: p.pop(k) for k in list(p) if k in ('tiers', 'tp', 'tl', 'ttl', 'b')}
    kw['reach'] = {0: ['wellformed'], 5: ['header', 'noheader']}.get(mode, ['done'])
    return {'name': name, 'h': 'lib_text', 'lib': True, 'p': dict(p, mode=mode), **kw}
def S(name, mode, **p):
    kw = {k: p.pop(k) for k in list(p) if k in ('tiers', 'tp', 'tl', 'ttl', 'b')}
    return {'name': name, 'h': 'lib_sync', 'lib': True, 'p': dict(p, mode=mode), **kw}
def L(h, name, **p):
    kw = {k: p.pop(k) for k in list(p) if k in ('tiers', 'tp', 'tl', 'ttl', 'b', 'instr', 'samples', 'reach')}
    return {'name': name, 'h': h, 'lib': True, 'p': p, **kw}
def C(h, tools, name, **p):
    kw = {k: p.pop(k) for k in list(p) if k in ('tiers', 'tp', 'tl', 'ttl', 'b', 'instr', 'samples', 'reach')}
    return {'name': name, 'h': h, 'tools': tools.split(), 'p': p, **kw}
def V(name, **p):
    return dict(C('h_vote', 'vote', name, **p), lib=True, reach=['done'])
def Y(name, **p):
    return dict(C('h_synctext', 'synctext', name, **p), lib=True, reach=['done'])
TOOLS = 'accci accdist accsum accuracy editop editopcost editopsum groupacc ngram nonstopacc synctext vote wordacc wordaccci wordaccdist wordaccsum wordfreq'.split()
def M(name, tool, **p):
    T = 'accsum accci accdist groupacc wordaccsum wordaccci wordaccdist nonstopacc editopsum editopcost editopcost'.split()
    return C('h_mal', T[tool], name, tool=tool, reach=['done'], **p)
MTN = 'accuracy editop ngram3 ngram1 synctext synctextH synctextT vote voteO wordacc wordaccS wordfreq nonstopacc groupacc'.split()
def MT(name, tool, **p):
    return C('h_maltext', MTN[tool].rstrip('13HTOS'), name, tool=tool, reach=['done'], **p)
def CI(*a, **p):
    return dict(C(*a, **p), max_viol=1, tl=100)
NA = {}
PROPS = {
 'C01': {'bounds': '', 'jobs': [S('any', 0, nmax=4, mmax=4, tp=dict(nmax=5, mmax=5)), S('two', 0, alpha=1, nmax=6, mmax=6, tp=dict(nmax=8, mmax=8)), S('thin', 0, alpha=1, nmax=2, mmin=7, mmax=9, tp=dict(nmax=3, mmax=11)), S('flat', 0, alpha=1, nmin=7, nmax=9, mmax=2, tp=dict(nmax=11, mmax=3)), S('wild', 0, alpha=3, nmax=5, mmax=5, tp=dict(nmax=6, mmax=6))]},
 'C03': {'bounds': '', 'jobs': [S('any2', 1, nmax=4, tp=dict(nmax=5)), S('two2', 1, alpha=1, nmax=6, tp=dict(nmax=8)), S('any3', 1, k=3, nmax=3, tp=dict(nmax=4)), S('two3', 1, alpha=3, k=3, nmax=3, tp=dict(nmax=4)), S('four', 1, alpha=1, k=4, nmax=3), S('five', 1, alpha=1, k=5, nmax=2, tp=dict(nmax=3)), S('eight', 1, alpha=1, k=8, nmax=1, tp=dict(nmax=2)), S('copies16', 1, k=16, shape=1, nmax=3, alpha=4), S('aab', 1, k=4, shape=2, nmax=3, alpha=4), S('abb', 1, k=4, shape=3, nmax=3, alpha=4)]},
 'C05': {'bounds': '', 'jobs': [C('h_editop', 'editop', 'abc', nmax=4, mmax=4), C('h_editop', 'editop', 'wild', alpha=1, nmax=3, mmax=3), C('h_editop', 'editop', 'space', alpha=2, nmax=3, mmax=3, out=0), C('h_editop', 'editop', 'mark', alpha=3, nmax=3, mmax=3), C('h_editop', 'editop', 'abcd', alpha=4, nmin=4, nmax=4, mmin=4, mmax=4, tiers=('thorough',)), C('h_editop', 'editop', 'order', alpha=6, fix=1, nmin=5, nmax=5, mmin=5, mmax=5, tp=dict(alpha=7, nmin=6, nmax=6, mmin=6, mmax=6)), C('h_editop', 'editop', 'blocks', nmin=0, nmax=0, mmin=0, mmax=0, nb=5, lmax=2, tp=dict(nb=6)), C('h_editop', 'editop', 'blocks7', nmin=0, nmax=0, mmin=0, mmax=0, nb=7, blk=1, out=0, tp=dict(nb=8)), C('h_editop', 'editop', 'long', alpha=5, rep=99, nmax=3, mmax=3, tp=dict(alpha=0))]},
 'C08': {'bounds': '', 'jobs': [C('h_edsum', 'editopsum', 'sum2', k=2, nd=2), C('h_edsum', 'editopsum', 'sum3', k=3, nd=1, rmax=3, order=1, lens=1), C('h_edsum', 'editopsum', 'big', k=2, nd=8, rmax=1), C('h_edsum', 'editopcost', 'cost1', cost=1, k=1, nd=1, rmax=3), C('h_edsum', 'editopcost', 'cost1b', cost=1, k=1, nd=2, rmax=2, lens=1), C('h_edsum', 'editopcost', 'cost2', cost=1, k=2, nd=1, rmax=1)]},
 'C04': {'bounds': '', 'jobs': [S('any', 2, nmax=3, mmax=3, tp=dict(nmax=4, mmax=4)), S('two', 2, alpha=1, nmax=5, mmax=5), S('thin', 2, alpha=1, nmax=2, mmin=6, mmax=7), S('flat', 2, alpha=1, nmin=6, nmax=7, mmax=2), S('wild', 2, alpha=3, nmax=4, mmax=4)]},
 'C02': {'bounds': 'every pair of texts of up to 2 characters over small alphabets.', 'jobs': [
   C('h_acc', 'accuracy', 'mixed', alpha=0, nmax=2, mmax=2, tp=dict(mmax=3)), C('h_acc', 'accuracy', 'two', alpha=5, nmax=4, mmax=4, tp=dict(nmax=5, mmax=5)), C('h_acc', 'accuracy', 'marks', alpha=2, nmax=3, mmax=3, tp=dict(mmax=4)),
   C('h_acc', 'accuracy', 'late', alpha=5, alpha2=2, nmin=1, nmax=2, mmin=4, mmax=4, tp=dict(nmax=3)), C('h_acc', 'accuracy', 'blanks', alpha=1, nmax=2, mmax=3, tp=dict(nmax=3)), C('h_acc', 'accuracy', 'kinds', alpha=3, nmax=2, mmax=2, tp=dict(nmax=3)), C('h_acc', 'accuracy', 'odd', alpha=7, nmin=1, nmax=2, mmin=1, mmax=1, tp=dict(nmax=3)), C('h_acc', 'accuracy', 'wild', alpha=6, nmin=3, nmax=4, mmin=2, mmax=3, tiers=['thorough'])
 ]},
 'C06': {'bounds': '', 'jobs': [
   C('h_accsum', 'accsum', 'rows', rlo=0, rhi=3, chi=1, order=0, empty=0, nd=1, reach=['done']),
   C('h_accsum', 'accsum', 'rows2', rlo=4, rhi=5, chi=1, order=0, empty=0, nd=1, reach=['done']),
   C('h_accsum', 'accsum', 'confs', rlo=1, rhi=1, chi=2, empty=0, nd=2, reach=['done']),
   C('h_accsum', 'accsum', 'keys', rlo=1, rhi=1, clo=3, chi=6, order=0, nd=2, reach=['done']),
   C('h_accsum', 'accsum', 'all', rlo=4, rhi=4, chi=0, reach=['done']),
   C('h_accsum', 'accsum', 'three', k=3, rlo=1, rhi=2, chi=1, nd=1, reach=['done']),
   C('h_accsum', 'accsum', 'big', rlo=1, rhi=1, chi=1, nd=7, reach=['done']),
   L('lib_accrpt', 'chars', reach=['done']),
   C('h_accrt', 'accuracy accsum', 'round', tp=dict(nmax=2), reach=['done'])]},
 'C07': {'bounds': '', 'jobs': [C('h_wacsum', 'wordaccsum', 'sets', shi=2, nhi=2, nd=2), C('h_wacsum', 'wordaccsum', 'sets2', slo=2, shi=5, nlo=2, nhi=5, nd=2, order=0, empty=0), C('h_wacsum', 'wordaccsum', 'three', k=3, slo=1, shi=2, nlo=1, nhi=2, nd=2), C('h_wacsum', 'wordaccsum', 'big', slo=1, shi=1, nlo=1, nhi=2, nd=7)]},
 'C18': {'bounds': '', 'jobs': [C('h_nonstop', 'nonstopacc', 'list', kmax=2, nhi=1, tp=dict(kmax=3)), C('h_nonstop', 'nonstopacc', 'three', kmin=3, kmax=3, shi=0, nhi=0, nl=0, tp=dict(nl=1)), C('h_nonstop', 'nonstopacc', 'few', slo=2, shi=3, nlo=2, nhi=3, kmax=3, nl=0, tp=dict(nl=1))]},
 'C19': {'bounds': '', 'jobs': [C('h_group', 'groupacc', 'three', rhi=1, nmax=2), C('h_group', 'groupacc', 'rows', nmin=3, nmax=3, tlo=2, thi=6, rhi=0), C('h_group', 'groupacc', 'norow', rlo=2, rhi=4, nmax=1, out=0), C('h_group', 'groupacc', 'big', nd=7, rlo=1, rhi=1, tlo=4, thi=7, nmin=1, nmax=2)]},
 'C20': {'bounds': '', 'jobs': [C('h_dist', 'accdist', 'one', k=1, hi=300000, real=1), C('h_dist', 'accdist', 'two', hi=9, hi2=1, tp=dict(hi=300, hi2=2)), C('h_dist', 'accdist', 'three', k=3, hi=2, hi2=1, tp=dict(hi=5, hi2=2)), C('h_dist', 'wordaccdist', 'word', word=1, k=1, hi=300000, real=1), C('h_dist', 'wordaccdist', 'word2', word=1, hi=2, tp=dict(hi=9)), C('h_dist', 'accdist', 'more', k=2, hi=2, extra=20, hi2=1)]},
 'C09': {'bounds': 'every byte string of at most 4 bytes, and 1-3 arbitrary bytes after a valid prefix.', 'outside': 'longer files (the reader keeps no state between characters except the suspect flag).', 'jobs': [T('utf8', 0, nmax=7), T('utf8pre', 0, pre=2, nmin=1, nmax=3)]},
 'C10': {'bounds': 'every text of up to 3 arbitrary code points; of up to 6 characters over letter, blank, newline, marker; up to 4 over a wider alphabet.', 'jobs': [T('any', 1, nmax=3), T('runs', 1, alpha=0, nmax=6), T('runst', 1, alpha=3, nmax=4), T('lower', 1, nmax=2, lower=1), T('plain', 1, nmax=2, normalize=0, markers=0)]},
 'C11': {'bounds': 'every code point U+0000..U+10FFFF except surrogates, with and without marker; every pair of distinct code points; every text of up to 2 printable characters.', 'jobs': [T('repr', 2), T('inject', 3), T('round', 4)]},
 'C26': {'bounds': 'the header block with any one byte replaced by any ASCII byte, or cut anywhere, followed by a text with an arbitrary ASCII byte.', 'jobs': [T('byte', 5), T('cut', 5, kind=1), T('written', 4, header=1)]},
 'C23': {'bounds': '', 'jobs': [L('lib_cont', 'list', steps=5, tp=dict(steps=6)), L('lib_cont', 'listinit', steps=4, init=1), L('lib_cont', 'table', mode=1, n=3, w=1, tp=dict(w=2), reach=['done']), L('lib_cont', 'table2', mode=1, n=2, w=2, init=1, each=1, reach=['done']), L('lib_cont', 'tablefull', mode=1, n=3, w=2, full=1, arr=0, fixlen=1, empty=0, tl=60, reach=['done']), L('lib_cont', 'sort', mode=2, n=6, tp=dict(n=7), reach=['done']), L('lib_cont', 'sortdown', mode=2, n=5, down=1, reach=['done']), L('lib_cont', 'tablelong', mode=1, n=2, w=2, pre=320, reach=['done']), L('lib_cont', 'table40', mode=1, n=2, w=2, pre=40, fill=97, reach=['done']), L('lib_cont', 'sortbig', mode=3, n=40, tp=dict(n=64), reach=['done'])]},
 'C12': {'bounds': '', 'jobs': [L('lib_words', 'any', nmax=3, nfc=0), L('lib_words', 'mixed', alpha=0, nmax=5, tp=dict(nmax=7)), L('lib_words', 'hebrew', alpha=1, nmax=5, tp=dict(nmax=6)), L('lib_words', 'lines', alpha=2, nmax=4, tp=dict(nmax=6)), L('lib_words', 'nfc', alpha=3, nmax=3, tp=dict(nmax=4))]},
 'C13': {'bounds': '', 'jobs': [C('h_wordacc', 'wordacc', 'any', nmax=3, mmax=3, tp=dict(mmax=4), reach=['done']), C('h_wordacc', 'wordacc', 'case', alpha=1, nmax=2, mmax=2, reach=['done']), C('h_wordacc', 'wordacc', 'two', hi=98, nmin=5, nmax=6, mmin=5, mmax=6, tp=dict(mmax=7), reach=['done']), C('h_wordacc', 'wordacc', 'self', self=1, nmax=4, tp=dict(nmax=5), reach=['done']), C('h_wordacc', 'wordacc', 'three', hi=99, nmin=4, nmax=4, mmin=4, mmax=4, tiers=('thorough',), reach=['done'])]},
 'C14': {'bounds': '', 'jobs': [C('h_wordacc', 'wordacc', 'rows', full=1, nmax=3, mmax=2, tp=dict(mmax=3), reach=['done']), C('h_wordacc', 'wordacc', 'lens', full=1, alpha=2, nmax=2, mmax=1, tp=dict(nmax=3), reach=['done']), C('h_wordacc', 'wordacc', 'kinds', full=1, alpha=3, nmax=3, mmax=1, reach=['done']), C('h_wordacc', 'wordacc', 'often', full=1, hi=97, nmin=8, nmax=12, mmax=12, reach=['done']), C('h_wordacc', 'wordacc', 'phrase', full=1, hi=98, nmin=9, nmax=9, mmin=1, mmax=1, tp=dict(mmax=3), reach=['done']), C('h_wordacc', 'wordacc', 'default', full=1, alpha=4, nmin=1, nmax=1, mmax=0, reach=['done']), C('h_wordacc', 'wordacc', 'stops', full=1, stops=2, nmax=2, mmax=1, reach=['done'])]},
 'C15': {'bounds': '', 'jobs': [V('two', k=2, nmax=3, tp=dict(nmax=4)), V('three', k=3, nmax=2), V('three3', k=3, nmin=2, nmax=3, alpha=2, tp=dict(alpha=1)), V('s', k=2, nmax=2, s=4, alpha=1), V('w', k=3, nmax=1, s=3, w=3, alpha=2), V('fracs', k=2, nmin=1, nmax=1, s=5, w=4, alpha=2, tp=dict(s=9, w=9)), V('six', k=6, split=2, nmin=0, nmax=2, alpha=2, s=2, w=2, tp=dict(s=9, w=9, nmax=1)), V('seven', k=7, split=3, nmin=1, nmax=1, alpha=1, marks=0, s=3), V('sixteen', k=16, split=2, nmin=1, nmax=2, marks=1, alpha=2), V('sixteens', k=16, split=2, nmin=1, nmax=1, alpha=2, s=3, w=3, tp=dict(s=9, w=9)), V('sixteenO', O=1, k=16, split=3, nmin=2, nmax=2, marks=0, alpha=2, tp=dict(alpha=1)), V('five', k=5, nmin=1, nmax=1, s=2, tp=dict(nmin=0)), V('same', k=3, same=1, nmax=4, alpha=3, marks=0), V('out', k=2, nmax=3, o=1, space=1, nl=1, marks=0), V('opt', O=1, k=3, nmax=2, marks=0), V('opt4', O=1, k=4, nmin=2, nmax=2, marks=0, alpha=1), V('opt5', O=1, k=5, nmin=2, nmax=2, marks=0, alpha=2), V('opt3', O=1, k=4, nmin=3, nmax=3, marks=0, alpha=2, tiers=('thorough',))]},
 'C16': {'bounds': '', 'jobs': [C('h_ngram', 'ngram', 'one', n=1, nmax=3, opt=0, tp=dict(nmax=4)), C('h_ngram', 'ngram', 'two', n=2, nmax=3, tp=dict(nmax=4)), C('h_ngram', 'ngram', 'three', n=3, nmax=4, kinds=1, hi=5, tp=dict(nmax=5)), C('h_ngram', 'ngram', 'files', n=2, files=2, nmax=2, kinds=1), C('h_ngram', 'ngram', 'long', n=2, nmin=6, nmax=6, kinds=0, hi=1, tp=dict(nmin=7, nmax=7)), C('h_ngram', 'ngram', 'long3', n=3, nmin=7, nmax=7, kinds=0, hi=1)]},
 'C17': {'bounds': '', 'jobs': [C('h_wordfreq', 'wordfreq', 'any', nmax=2, tp=dict(nmax=3, seps=0)), C('h_wordfreq', 'wordfreq', 'one', files=1, nmin=4, nmax=5, seps=0, tp=dict(nmax=6)), C('h_wordfreq', 'wordfreq', 'case', files=1, alpha=1, nmax=2), C('h_wordfreq', 'wordfreq', 'kinds', files=1, alpha=2, nmax=3, seps=0, tp=dict(seps=1)), C('h_wordfreq', 'wordfreq', 'seps', files=1, nmax=2, seps=4, hi=98), C('h_wordfreq', 'wordfreq', 'many', files=3, nmin=3, nmax=3, hi=98, seps=0)]},
 'C28': {'bounds': '', 'jobs': [Y('two', nmax=4, tp=dict(nmax=6)), Y('marks', nmax=3, marks=1, s=1, late=1), Y('hidden', nmax=2, marks=1), Y('case', nmax=3, alpha=1, i=1), Y('lines', nmax=3, alpha=2, tp=dict(nmax=4)), Y('heur', nmax=4, H=1), Y('three', k=3, nmax=2, alpha=3, marks=0), Y('threem', k=3, nmax=2, marks=1, s=1, tiers=('thorough',)), Y('trans', T=1, nmax=3, marks=1, s=1), Y('transl', T=1, nmax=4, alpha=4), Y('wide', nmax=3, alpha=4), Y('four', k=4, nmax=1, alpha=2, marks=1, s=1)]},
 'C22': {'bounds': '', 'jobs': [C('h_cli', t, t, tool=i, tp=dict(ol=3) if t not in ('vote', 'wordacc') else {}, reach=['done', 'opt:usage', 'opt:error', 'opt:good']) for i, t in enumerate(TOOLS)]
   + [C('h_cli', t, t + '4', tool=TOOLS.index(t), nmin=4, nmax=4, kinds=3, ol=1, tp=dict(kinds=4, ol=2) if t != 'vote' else {}, reach=['done', 'opt:order']) for t in ('editop', 'ngram', 'synctext', 'vote', 'wordacc')]
   + [C('h_cli', t, t + 'x', tool=TOOLS.index(t), nmin=2, nmax=4, kinds=5, ol=1, hs=5, tiers=('thorough',), reach=['done']) for t in ('vote', 'ngram', 'wordacc')]
   + [C('h_cli', t, t + 'n', tool=i, many=18 if t == 'vote' else 5, nmax=18 if t == 'vote' else 5, reach=['done']) for i, t in enumerate(TOOLS)]
   + [C('h_args', 'accdist', 'args', reach=['done'])]},
 'C24': {'bounds': '', 'jobs': [M('esbyte', 8), M('escut', 8, how=1), M('esnum', 8, how=2), M('esline', 8, how=3), M('ecnum', 9, how=2, nd=1), M('ec2num', 10, how=2, nd=1),
   M('wsbyte', 4, step=7, tp=dict(step=1)), M('wscut', 4, how=1), M('wsnum', 4, how=2, nd=1), M('wsline', 4, how=3), M('wcnum', 5, how=2, nd=1), M('wdnum', 6, how=2, nd=1), M('nsnum', 7, how=2, nd=1),
   M('wslen0', 4, how=2, flo=10, fhi=10), M('wslen1', 4, how=2, flo=19, fhi=19), M('wslen2', 4, how=2, flo=33, fhi=33), M('wslen3', 4, how=2, flo=47, fhi=47),
   M('adbyte', 2, step=3, tp=dict(step=1)), M('adcut', 2, how=1), M('asbyte', 0, step=97, tp=dict(step=29)), M('ascut', 0, how=1, tiers=('thorough',)), M('asnum', 0, how=2, nd=1), M('asline', 0, how=3), M('acnum', 1, how=2, nd=1), M('adnum', 2, how=2, nd=1), M('gnum', 3, how=2, nd=1), M('adhex', 2, how=4, len=6, tp=dict(len=8))] + [MT(k, i, nmax=1 if k in ('accuracy', 'ngram1', 'voteO', 'wordacc', 'wordaccS', 'wordfreq') else 2, tp=dict(nmax=2 if k in ('accuracy', 'ngram1') else 1) if k in ('accuracy', 'ngram1', 'voteO', 'wordacc', 'wordaccS', 'wordfreq') else dict(nmax=3)) for i, k in enumerate(MTN)]
   + [MT('%s_%d' % (k, r), i, kind=1, rep=r) for i, k in enumerate(MTN) for r in (22, 48, 98, 250)]},
 'C27': {'bounds': '', 'jobs': [C('h_large', t, t + x, tool=i, span=40, tp=dict(span=400), reach=['done', 'opt:counts']) for i, (t, x) in enumerate([('accsum', ''), ('groupacc', ''), ('wordaccsum', ''), ('editopsum', ''), ('editopcost', ''), ('editopcost', '2')])] + [
   C('h_large', 'editopsum', 'editopsum12', tool=3, reach=['done', 'opt:counts']), C('h_large', 'editopcost', 'editopcost12', tiers=['thorough'], tool=4, reach=['done', 'opt:counts'])] + [
   C('h_long', 'accuracy', 'accuracy', hi=99, tp=dict(hi=122), reach=['done']), C('h_long', 'accuracy', 'accuracy_lines', hi=99, pat=1, reach=['done']), C('h_long', 'wordfreq', 'wordfreq', tool=1, hi=98, nhi=2, poss=1, tp=dict(hi=122, nhi=6, poss=2), instr=2000000000, reach=['done']), C('h_long', 'ngram', 'ngram', tool=2, pat=1, tp=dict(pat=2), reach=['done']),
   C('h_long', 'synctext', 'synctext', tool=4, hi=102, reach=['done']), C('h_long', 'wordacc', 'wordacc', tool=5, pat=3, hi=98, nlo=3, nhi=4, poss=1, tp=dict(hi=122, nlo=0, nhi=6, poss=2), instr=3000000000, reach=['done', 'opt:refused', 'opt:counted'])]},
 'C21': {'bounds': '', 'jobs': [CI('h_ci', 'accci', 'two', real=1, k=2, hi=1000000, reach=['done', 'opt:refused']), CI('h_ci', 'wordaccci', 'wordtwo', real=1, k=2, hi=1000000, word=1, reach=['done', 'opt:refused']),
   CI('h_ci', 'accci', 'extra', real=1, k=2, hi=50, extra=200, order=0, reach=['done']), CI('h_ci', 'accci wordaccci', 'one', real=1, k=1, hi=9, reach=['opt:refused']), CI('h_ci', 'wordaccci', 'wordone', real=1, k=1, hi=9, word=1, reach=['opt:refused']),
   CI('h_ci', 'accci', 'three', real=1, k=3, hi=9, order=0, tp={'hi': 1000, 'order': 1}, reach=['done', 'opt:refused']), CI('h_ci', 'wordaccci', 'wordthree', tiers=['thorough'], real=1, k=3, hi=1000, word=1, reach=['done', 'opt:refused']), CI('h_ci', 'accci', 'threex', tiers=['thorough'], real=1, k=3, hi=9, extra=40, reach=['done'])]},
 'C25': {'bounds': 'every code point U+0000..U+10FFFF.', 'jobs': [T('class', 6), T('before', 6, before=1)]},
}

# what each property is decided for, and what stays outside
BOUNDS = {
 'C01': ('every pair of texts of up to 4 (thorough 5) arbitrary 32-bit characters; up to 6 (8) over a two-letter alphabet, up to 2 against 7 to 9 (3 against 11); up to 5 (6) over two letters and the wildcard.', 'longer texts over wider alphabets; long concrete texts with one symbolic place are under C27.'),
 'C03': ('two texts of up to 4 (5) arbitrary characters, up to 6 (8) over two letters; three texts of up to 3 (4) arbitrary characters, up to 3 (4) over two letters and the wildcard; over two letters four texts of up to 3, five of up to 2 (3), eight of up to 1 (2); 16 copies of any text of up to 3 characters; groups of copies (aab, abb).', '9 to 15 different texts; the heuristic is not claimed optimal beyond what the property says.'),
 'C04': ('every pair of texts of up to 3 (4) arbitrary characters; up to 5 over two letters, up to 2 against 6 or 7; up to 4 over two letters and the wildcard.', 'longer texts.'),
 'C05': ('editop on every pair of texts of up to 4 characters over three letters (5, thorough 6, for rearrangements of fixed texts), every order of 5 (6) blocks of 1 or 2 letters each and of 7 (8) blocks of given lengths, with wildcards, blanks and suspect markers up to 3; rows of moves longer than 99 with a repeated passage.', 'wider alphabets; option -D is compared on the same texts.'),
 'C02': ('accuracy on every pair of texts of up to 4 (5) characters over two letters, 3 over letter, wildcard and suspect marker, 2 to 3 over letters of both cases, digits, punctuation, blanks, tabs, lines and carriage returns. The report has to be the one derived from some optimal alignment of the two texts: every operation, mark, false mark, confusion row, character row and class row.', 'longer texts (C27 has long concrete ones), differences longer than the display limit (C06, C11).'),
 'C06': ('two reports (three in one job) of 0 to 5 character rows and 0 to 2 (up to 6 with short keys) confusions with symbolic counts of 1 to 7 digits; the report written by accuracy for every pair of short texts read back by accsum; every code point in a row key.', 'accuracies so negative that the errors exceed 40 times the characters; counts of 8 digits and more are under C27.'),
 'C07': ('two reports (three in one job) of 0 to 5 stopwords and non-stopwords with symbolic counts of 2 to 7 digits.', 'more rows; the words come from a fixed list, arbitrary bytes in reports are under C24.'),
 'C08': ('two or three reports of up to 3 move rows with symbolic numbers of 1, 2 and 8 digits; cost tables of one and two reports for all 101 thresholds.', 'more move rows.'),
 'C09': ('every byte string of at most 7 bytes, and 1 to 3 arbitrary bytes after a valid prefix.', 'longer files (the reader keeps no state between characters except the suspect flag).'),
 'C10': ('every text of up to 3 arbitrary code points; of up to 6 characters over letter, blank, newline, marker; up to 4 over a wider alphabet.', 'longer texts.'),
 'C12': ('every text of up to 3 arbitrary code points (one stands for each class of the UAX #29 table and each of the properties involved); up to 5 (7) over mixed letters, digits and punctuation; up to 5 (6) over Hebrew; lines up to 4 (6); compositions up to 3 (4).', 'longer texts; the reference is an independent reading of UAX #29 over the Unicode 8.0 table, cross-checked against the data of perl; NFC is that of utf8proc.'),
 'C13': ('wordacc on every pair of texts of up to 3 words over three words; of up to 6 (7) over two words; upper and lower case; every text of up to 4 (5) words with itself.', 'longer texts (C27), more distinct words.'),
 'C14': ('wordacc on texts over a small set of words with stopwords given and default; every default stopword.', 'longer texts and other stopword lists.'),
 'C15': ('vote over 2 to 5 texts of up to 1 to 4 characters with suspect markers, every s and w fraction with numerators and denominators up to the given limits; identical texts of up to 4 characters; 6, 7 and 16 voters that share two or three texts, in blocks or in turn; -O over 3 to 5 texts of up to 2 (3) characters and over 16 that share three; -o output file.', '6 to 16 voters with more than three different texts; longer disagreements.'),
 'C16': ('ngram for n = 1, 2, 3 over texts of up to 3 to 7 characters from the alphabets of the jobs (letters, blanks, suspect markers, accented, astral, private use), one and two files.', 'longer texts (C27).'),
 'C17': ('wordfreq over one to three files of up to 2 to 5 (6) words from small sets of words with symbolic choice of word and separator.', 'longer texts (C27), words longer than the limit (C24).'),
 'C18': ('lists of up to 2 (3) stopwords against reports of up to 3 stopwords and 3 non-stopwords with symbolic counts.', 'longer lists.'),
 'C19': ('groups of up to 2 or 3 characters against reports of up to 7 rows with symbolic counts of up to 7 digits.', 'counts of 8 digits and more are under C27.'),
 'C20': ('one report with counts up to 300000, two with counts up to 9 (300), three with counts up to 2 (5); more errors than characters up to 20.', 'reports whose errors exceed 40 times their characters.'),
 'C21': ('accci and wordaccci on two reports with counts up to 1000000, three with counts up to 9 (1000), errors in excess of the characters up to 200, and one report; in both orders. Doubles are treated as reals: printed values are decided to within 0.01 of the exact ones (0.0001 percentage points of slack around the rounding), comparisons that decide the clipping to within 1e-9.', 'rounding errors of the doubles below those tolerances; four reports and more.'),
 'C22': ('every program with up to 3 (4) arguments, each an option, a symbolic option-like string, a readable, malformed or missing file; a number of files beyond the maximum; symbolic argument strings for the number parser.', 'longer symbolic option strings; signals and full disks.'),
 'C23': ('lists under every sequence of 5 (6) operations; tables with 3 keys of symbolic bytes of up to 2 characters, and with 2 keys that share 40 or 320 bytes; sorting of every array of 6 (7) elements, and of 40 (64) ordered, reversed, equal or cycling elements with one symbolic element anywhere.', 'longer sequences; iteration while a table changes.'),
 'C24': ('each reader on its report with one byte replaced by any byte, cut anywhere, one number replaced by any digits, one line dropped or doubled; text readers on every file of up to 2 (3) bytes and on a passage of 22, 48, 98 and 250 characters around a symbolic character. Memory accesses are checked against the exact extent of their object, uninitialised reads are followed, counterexamples confirmed under AddressSanitizer.', 'several simultaneous faults in one report; allocation failure.'),
 'C27': ('counts around 2^15, 2^16, 10^8, 10^9, 2^31, 2^32, 10^10 (every value within 40 (400) of each) and every 12-digit number for editopsum; texts of up to 131080 characters or 65537 words with a symbolic character or repetition count.', 'vote and editop on very long texts (quadratic); counts beyond the columns of the reports.'),
 'C28': ('synctext over two texts of up to 4 (6) characters, three and four shorter, with -H -i -s -T, over letters, suspect markers, blanks, lines and wide characters.', 'longer texts (C27 has long concrete ones).'),
}
for _k, (_b, _o) in BOUNDS.items():
    PROPS[_k]['bounds'] = _b; PROPS[_k]['outside'] = _o
