import vf, itertools
from gen import G, E
STOP = ['the', 'a', 'is', 'i', 'and']
def ch(s): return list(s)
def chs(l): return [ch(s) for s in l]
def X(f, x, stop=STOP, *o): return E('X', f, x, chs(stop), *o)
def run(c):
    exe = vf.build(['la.cpp', 'ops_data.cpp'], 'all')
    r = c.rng; out = []
    # exhaustive: every text up to a length over a small alphabet
    for n in range(1, c.n(5, 7)):
        for t in itertools.product('a .,', repeat=n):
            out.append([X('split_sentences', list(t)), X('segment', list(t)), X('tokenize', list(t)), X('remove_stop_words', list(t)), E('X.stem', list(t), chs(['a', 'aa']))])
    words = ['the', 'a', 'is', 'i', 'and', 'boy', 'girl', 'good', 'Good', 'The', 'cat', 'Is', 'dog', 'x', 'thinking', 'able', 'conducting', 'kindness', 'readable', 'fishery', 'er', 'He', 'AND']
    suf = ['er', 'ness', 'ing', 'able', 'y', 'ed', 'ery', 's']
    def text(clean=False):
        t = ''
        for i in range(r.randint(1, 9)):
            t += r.choice(words) + r.choice([' ', ' ', ' ', ', ', '. ', '! ', '.', ',', '-', '... ', '  '] if not clean else [' ', ' ', ' ', ', ', '. ', '! '])
        return t.rstrip(' ') if r.random() < .7 or clean else t
    for _ in range(c.n(200, 3000)):
        t = text()
        out.append([X(f, ch(t)) for f in ('split_sentences', 'segment', 'tokenize', 'remove_stop_words', 'to_lower', 'split')] + [E('X.stem', ch(t), chs(suf)), E('X.stem', ch(t), chs(r.sample(suf, 3)))])
        v = [r.choice(words + ['', '', 'a b', ' ', 'good boy']) for _ in range(r.randint(0, 8))]
        out.append([X(f, chs(v)) for f in ('remove_stop_words_vec', 'remove_empty', 'remove_spaces', 'vec_to_set')] + [X('vec_to_setnv', [r.choice([1, 2, 3, .5, -1]) for _ in range(r.randint(0, 7))])])
        st = r.sample(STOP, r.randint(0, 5))
        s = [text(True) for _ in range(r.randint(1, 4))]; s[0] = 'boy ' + s[0]
        out.append([X(f, chs(s), st) for f in ('create_word_list', 'bag_of_words', 'bag_binary')])
        s = [r.choice(['boy', 'girl', 'good']) + ' ' + x for x in s]
        out.append([X('tfidf', chs(s), st)])
    for _ in range(c.n(6, 60)):
        s = [' '.join(r.choice(['boy', 'girl', 'good', 'cat', 'dog', 'is', 'a']) for _ in range(4)) + ' boy cat' for _ in range(r.randint(1, 3))]
        out.append([X('word_to_vec', chs(s), STOP, r.randint(1, 3), r.choice(['cbow', 'skipgram']))])
    c.conform(exe, 'DataSpec', out, name='texts')
    c.assumptions = ['ASCII texts; word embeddings are checked for vocabulary and shape only (random initial weights)', 'trailing blanks of a stemmed text are not specified', 'term frequencies are checked on texts without empty segments']
