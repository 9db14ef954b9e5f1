"""Words of a word list, and texts known by their words (see api.word_list, api.word_of, api.typed)."""
import unicodedata
import z3

from . import api, values as V
from .core import st, Unsupported
from .values import SInt, Seq, Elems, PList, I, T, TB, B, And, Or, Not, to_seq, norm_seq, force, Model


def ops():
    from . import ops as o
    return o


class WordList:
    """n different words, each of them normal (see DESIGN.md)."""
    pyclass = list

    def __init__(self, n):
        self.n = n

    def sym_len(self, it):
        return I(self.n)

    def sym_getitem(self, it, k):
        if isinstance(k, slice):
            raise Unsupported('slice of a word list')
        i = ops().index_term(it, k, self.n)
        return SymWord(self, i)

    def find(self, x):
        x = force(x)
        if not isinstance(x, SymWord):
            if V.kind_of(x) == 'str':
                raise Unsupported('a text looked up in a word list')
            return None
        if x.pending:
            raise Unsupported('a word that is not normal')
        if x.of is not self:
            return other_index(x, self)
        return x.t

    def sym_contains(self, it, x):
        t = self.find(x)
        return False if t is None else t >= 0

    def sym_attr(self, it, name):
        if name == 'index':
            def index(it, a, kw):
                if len(a) != 1:
                    raise Unsupported('index in part of a word list')
                t = self.find(a[0])
                if t is None or not it.truth(B(t >= 0)):
                    ops().raise_(ValueError, 'not in the list')
                return I(t)
            return Model(index, 'index')
        raise Unsupported(f'{name} of a word list')


    def seq(self):
        return Seq('list', [V.Sub(V.Atom(f'words{id(self)}', self.n, lambda i: SymWord(self, i if isinstance(i, int) else T(i)), (), 'list'),
                                  0, self.n)])


class WordDict:
    """A value for each word of a list."""
    pyclass = dict

    def __init__(self, of, values):
        self.of, self.values = of, values

    def at(self, t):
        return V.seq_get(self.values, t)[1]

    def sym_len(self, it):
        return I(self.of.n)

    def sym_contains(self, it, x):
        return self.of.sym_contains(it, x)

    def sym_getitem(self, it, k):
        t = self.of.find(k)
        if t is None or not it.truth(B(t >= 0)):
            ops().raise_(KeyError, 'no such word')
        return self.at(t)

    def sym_attr(self, it, name):
        if name == 'get':
            def get(it, a, kw):
                t = self.of.find(a[0])
                if t is None or not it.truth(B(t >= 0)):
                    return a[1] if len(a) > 1 else kw.get('default')
                return self.at(t)
            return Model(get, 'get')
        raise Unsupported(f'{name} of a dictionary of words')


def word_dict(it, q):
    """The dictionary of pairs whose keys are the words of a list in order, or None."""
    s = st()
    n = T(q.length())
    i = s.fresh_int('word')
    try:
        s2 = V.seq_get(Seq('list', q.segs), i) if not isinstance(n, int) or n > 0 else None
    except Exception:
        return None
    if not (isinstance(s2, tuple) and len(s2) == 2):
        return None
    k = force(s2[0])
    if not isinstance(k, SymWord) or k.pending or isinstance(k.t, int) or not z3.simplify(k.t == i).eq(z3.BoolVal(True)) or \
            not V.prove_eq(I(n), I(k.of.n)):
        return None
    return WordDict(k.of, q)


def other_index(x, of):
    """The number in one list of a word of another: some function of the word that is different for different words."""
    s = st()
    key = ('other index', id(x.of), id(of))
    known = s.registry.get(key, ())
    for w, t in known:
        if V.prove_eq(I(w), I(x.t)):
            return t
    t = s.fresh_int('other')
    s.assume(z3.And(-1 <= t, TB(B(t < of.n))))
    s.registry[key] = tuple(known) + ((x.t, t),)
    s.registry.setdefault(('keep', id(of)), (of, x.of))
    return t


class SymWord:
    """Word number t of the list, or (t < 0) one of the texts that are none of its words."""
    pyclass = str

    def __init__(self, of, t, pending=frozenset()):
        self.of, self.t, self.pending = of, t, pending

    def __repr__(self):
        return f'word({self.t})'

    def sym_eq(self, other):
        other = force(other)
        if isinstance(other, SymWord) and other.of is self.of:
            if self.pending != other.pending:
                raise Unsupported('comparison with a text that is not normal')
            return T(I(self.t)) == T(I(other.t))
        if V.kind_of(other) == 'str' or isinstance(other, (SymWord, WordText)):
            raise Unsupported('comparison of a word and other text')
        return False

    def sym_same(self, other):
        other = force(other)
        return isinstance(other, SymWord) and other.of is self.of and self.pending == other.pending and \
            V.prove_eq(I(self.t), I(other.t))

    def sym_attr(self, it, name):
        if name in ('lower', 'strip'):
            return Model(lambda it, a, kw: SymWord(self.of, self.t, self.pending - {name}), name)
        raise Unsupported(f'str.{name} of a word')


class WordText:
    """A text known by its words.  pending: what normalization is still to be done ('NFKD', 'lower');
    exact: the words are separated by single spaces and there is no other white space."""
    pyclass = str

    def __init__(self, words, exact=False, pending=frozenset()):
        self.words, self.exact, self.pending = words, exact, pending

    def done(self, what):
        return WordText(self.words, self.exact, self.pending - {what})

    def sym_eq(self, other):
        other = force(other)
        if isinstance(other, str) and other == '':
            other = WordText((), True)
        if not isinstance(other, WordText):
            if V.kind_of(other) == 'str' or isinstance(other, SymWord):
                raise Unsupported('comparison of a phrase and other text')
            return False
        if not (self.exact and other.exact) or self.pending or other.pending:
            raise Unsupported('comparison of texts known by their words')
        return V.seq_eq(to_seq(self.words).with_kind('tuple'), to_seq(other.words).with_kind('tuple'))

    def sym_same(self, other):
        other = force(other)
        if isinstance(other, str) and other == '':
            other = WordText((), True)
        return isinstance(other, WordText) and self.exact == other.exact and self.pending == other.pending and \
            (self.exact or self is other) and \
            V.prove_seq_eq(to_seq(self.words).with_kind('tuple'), to_seq(other.words).with_kind('tuple'))

    def key(self):
        """A number that is the same for texts proved to be the same."""
        if not self.exact or self.pending:
            raise Unsupported('text known by its words only')
        s = st()
        known = s.registry.get('phrases', ())
        for k, w in enumerate(known):
            if w is self or w.sym_same(self):
                return k
        s.registry['phrases'] = tuple(known) + (self,)
        return len(known)

    def sym_attr(self, it, name):
        if name == 'split':
            def split(it, a, kw):
                if a or kw:
                    raise Unsupported('split of a text known by its words')
                q = to_seq(self.words)
                if self.pending and q.concrete_len() is None:
                    def elem(k):
                        w = force(V.seq_get(to_seq(self.words), k))
                        return SymWord(w.of, w.t, self.pending)
                    atom = V.Atom(str(st().fresh_int('pend')), T(q.length()), elem, (), 'list')
                    atom.words, atom.pending = self.words, self.pending
                    q = Seq('list', [V.Sub(atom, 0, T(q.length()))])
                elif self.pending:
                    q = Seq('list', [Elems([SymWord(w.of, w.t, self.pending) for w in (force(V.seq_get(q, k)) for k in range(
                        q.concrete_len()))])])
                return it.box(PList(q.with_kind('list')))
            return Model(split, 'split')
        if name == 'lower':
            return Model(lambda it, a, kw: self.done('lower'), name)
        if name == 'strip' and self.exact:
            return Model(lambda it, a, kw: self, name)
        if name == 'encode':
            def encode(it, a, kw):
                s = st()
                k = self.key()
                r = s.registry.get(('phrase bytes', k))
                if r is None:
                    n = s.fresh_int('pn')
                    s.assume(n >= 0)
                    r = s.registry[('phrase bytes', k)] = V.sym_bytes(s.fresh('phrase'), n)
                return r
            return Model(encode, name)
        raise Unsupported(f'str.{name} of a text known by its words')

    def fromhex(self):
        """bytes.fromhex: some function of the text."""
        s = st()
        k = self.key()
        r = s.registry.get(('phrase hex', k))
        if r is None:
            ok, n = s.fresh_bool('phex'), s.fresh_int('phexn')
            s.assume(n >= 0)
            r = s.registry[('phrase hex', k)] = (ok, V.sym_bytes(s.fresh('unhex'), n))
        if not s.branch(r[0]):
            ops().raise_(ValueError, 'non-hexadecimal number')
        return r[1]


def has_words(it, q):
    for g in q.segs:
        if isinstance(g, Elems) and g.items:
            return isinstance(force(g.items[0]), SymWord)
        if isinstance(g, V.Sub):
            return isinstance(force(V.seg_get(g, 0)), SymWord)
    return False


def join(it, sep, q):
    """' '.join of words."""
    if not (isinstance(sep, str) and sep == ' '):
        raise Unsupported('words joined by other text')
    n = q.concrete_len()
    pending = frozenset()
    if n is None and len(q.segs) == 1 and isinstance(q.segs[0], V.Sub) and hasattr(q.segs[0].atom, 'pending'):
        g = q.segs[0]
        if g.lo == 0 and V.prove_eq(I(g.n), I(g.atom.length)):
            return WordText(g.atom.words, True, g.atom.pending)
        raise Unsupported('words of a text that is not normal')
    if n is not None:
        items = [force(V.seq_get(q, k)) for k in range(n)]
        if not all(isinstance(x, SymWord) for x in items):
            raise Unsupported('words and other texts joined')
        if len({x.pending for x in items}) > 1:
            raise Unsupported('words joined')
        pending = items[0].pending if items else pending
        if pending:
            q = Seq('tuple', [Elems([SymWord(x.of, x.t) for x in items])])
    return WordText(q.with_kind('tuple'), True, pending)


# ------------------------------------------------------------------ primitives of contracts
def m_word_list(it, a, kw):
    n = T(a[0])
    s = st()
    if isinstance(n, int):
        key = ('word list', n, str(a[1]) if len(a) > 1 else '')
    else:
        key = ('word list', n.get_id(), '')
        s.registry[('keep', n.get_id())] = n
    if key not in s.registry:
        s.registry[key] = WordList(n)
    return s.registry[key]


def m_word_of(it, a, kw):
    return SymWord(a[0], T(a[1]))


def m_typed(it, a, kw):
    q = to_seq(force(a[0]))
    return WordText(q.with_kind('tuple'), False, frozenset(a[2:] if len(a) > 2 else ('NFKD', 'lower')))


def m_normalize(it, a, kw):
    form, text = a
    text = force(text)
    if isinstance(text, (SymWord, WordText)):
        if form != 'NFKD':
            raise Unsupported('normalization')
        return text.done('NFKD') if isinstance(text, WordText) else SymWord(text.of, text.t, text.pending - {'NFKD'})
    if isinstance(form, str) and isinstance(text, str):
        return unicodedata.normalize(form, text)
    if V.kind_of(text) != 'str' or not isinstance(form, str):
        raise Unsupported('normalize')
    q = to_seq(text)
    if V.decide_all(q.length(), lambda i: TB(T(V.seq_get(q, i)) < 128))[0]:
        return text
    # a function of the text which does not shorten it
    from .models import uf_bytes_var
    return uf_bytes_var(form, q, 'str')


OLD = []


def m_old_wordlist(it, a, kw):
    """The words of the file are concrete: the real function is run."""
    from bitcoinx.mnemonic import Wordlists
    words = Wordlists.original_electrum_wordlist()
    if not isinstance(words, list) or len(set(words)) != len(words) or \
            any(w.split() != [w] or w.lower() != w or unicodedata.normalize('NFKD', w) != w for w in words):
        raise Unsupported('the old word list has words that are not normal or not different')
    s = st()
    if 'old words' not in s.registry:
        s.registry['old words'] = WordList(len(words))
    return s.registry['old words']
