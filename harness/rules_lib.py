"""What a labelled sentence says, from the rules of the annotation: relations between words as sets over its arcs."""

NOUNS = ('NOUN', 'PROPN', 'PRON', 'SYM', 'NUM')
CODES = {'NOUN': 'N', 'PROPN': 'P', 'PRON': 'O', 'NUM': 'U', 'SYM': 'S'}
MARKERS = ('MARK', 'CMARK', 'IMARK')
RELATIVE = ('that', 'which', 'who')
REFLEXIVE = ('myself', 'yourself', 'yourselves', 'himself', 'herself', 'itself', 'ourself', 'ourselves', 'theirself', 'themselves', 'oneself')
LEMMAS = {'is': 'be', 'was': 'be', 'ate': 'eat', 'has': 'have', 'gets': 'get', 'does': 'do'}
SUBJECT_FORM = {'me': 'i', 'you': 'you', 'her': 'she', 'him': 'he', 'us': 'we', 'them': 'they'}
PARTICIPLE = {'eat': 'eaten', 'sing': 'singed', 'sleep': 'sleeped', 'hurt': 'hurt', 'want': 'wanted', 'call': 'called', 'give': 'given', 'bake': 'baked', 'see': 'seen', 'be': 'been',
              'make': 'made', 'go': 'gone', 'meet': 'met', 'cook': 'cooked', 'have': 'had', 'get': 'getted', 'do': 'done', 'name': 'named'}
PAST = {'baked': 'bake', 'named': 'name', 'eaten': 'eat', 'hurt': 'hurt', 'made': 'make'}
ADJECTIVES, COMMON = ('cold', 'red', 'sweet'), ('pear', 'apple', 'cook')


class Reading:
    """rows: (token, tag, dep, head) with concrete values"""

    def __init__(self, rows):
        self.rows = rows
        self.n = len(rows)
        self.tag = {i: self.corrected(i) for i in range(self.n)}

    def dep(self, i):
        return self.rows[i][2]

    def head(self, i):
        return self.rows[i][3]

    def kids(self, i, *deps):
        return [j for j in range(self.n) if self.head(j) == i and (self.dep(j) in deps if deps else self.dep(j) != 'PART')]

    def first(self, i, dep):
        k = self.kids(i, dep)
        return k[0] if k else None

    def corrected(self, i):
        """The word lists correct the tag of a lone word"""
        token, tag, dep, head = self.rows[i]
        if head >= 0 and not self.kids(i) and (dep in ('PROP', 'IPROP') or dep == 'CPL' and self.rows[head][1] in NOUNS):
            if token in ADJECTIVES and tag in NOUNS:
                return 'ADJ'
            if token in COMMON and tag == 'ADJ':
                return 'NOUN'
        return tag

    def noun(self, i):
        return self.tag[i] in NOUNS

    def word(self, i):
        token = self.rows[i][0].lower()
        if self.tag[i] == 'NOUN' and not self.compounding(i):
            return ' '.join([self.rows[k][0].lower() for k in sorted(self.compound(i))])
        if self.tag[i] == 'PRON' and token in SUBJECT_FORM:
            return SUBJECT_FORM[token]
        if self.rows[i][1] == 'VERB':
            token = PAST.get(token) or LEMMAS.get(token, token)
        return token + (self.particles(i) if self.tag[i] in ('VERB', 'ADJ') else '')

    def compounding(self, i):
        h = self.head(i)
        return self.dep(i) == 'CPL' and i < h and self.noun(i) and self.noun(h) and not self.kids(i, *MARKERS)

    def compound(self, i):
        return [i] + [x for k in self.kids(i) if self.compounding(k) for x in self.compound(k)]

    def particles(self, i):
        return ''.join([' ' + self.rows[k][0].lower() for k in self.kids(i, 'PART') if k > i])

    def participle(self, i):
        p = self.particles(i)
        w = self.word(i)
        return PARTICIPLE[w[:len(w) - len(p)]] + p

    def active(self, i):
        v = PAST.get(self.rows[i][0].lower()) if self.tag[i] == 'ADJ' else None
        return v + self.particles(i) if v else None

    def group(self, i):
        return [i] + self.kids(i, 'AND') + self.kids(i, 'OR')

    def antecedent(self, verb, pron):
        h = self.head(verb)
        if self.tag[pron] == 'PRON' and self.rows[pron][0] in RELATIVE and self.dep(verb) == 'CPL' and self.noun(h) and not self.kids(verb, *MARKERS):
            return h
        return None

    def subject(self, verb):
        s = self.first(verb, 'SUBJ')
        if s is None:
            return None
        a = self.antecedent(verb, s)
        return s if a is None else a

    def stands_for(self, verb, pron, role):
        a = self.antecedent(verb, pron)
        if a is not None:
            return a
        if self.rows[pron][0] in REFLEXIVE:
            if role == 'OBJ':
                s = self.subject(verb)
            else:
                h = self.head(verb)
                s = self.subject(h) if self.dep(verb) == 'OBJ' and self.tag[h] == 'VERB' else None
            if s is not None:
                return s
        return pron

    def said_subjects(self, v):
        out = []
        for s in self.kids(v, 'SUBJ'):
            out += self.group(self.stands_for(v, s, 'SUBJ'))
        # "I ate but did not drink"
        h = self.head(v)
        if self.dep(v) == 'CPL' and self.kids(v, 'MARK') and self.tag[v] == 'VERB' and not self.kids(v, 'SUBJ') and self.tag[h] == 'VERB':
            s = self.subject(h)
            out += self.group(s) if s is not None else []
        return out

    def said_objects(self, v):
        out = []
        for o in self.kids(v, 'OBJ'):
            out += self.group(self.stands_for(v, o, 'OBJ'))
        # "the apple I ate"
        s = self.first(v, 'SUBJ')
        if self.dep(v) == 'CPL' and not self.kids(v, *MARKERS) and self.noun(self.head(v)) and not self.kids(v, 'OBJ') and s is not None and self.word(s) not in RELATIVE:
            out += self.group(self.head(v))
        return out

    def subjects(self, v):
        out = self.said_subjects(v)
        if self.dep(v) in ('AND', 'OR') and not self.kids(v, 'SUBJ'):
            out += self.said_subjects(self.head(v))
        return out

    def objects(self, v):
        out = self.said_objects(v)
        if self.dep(v) in ('AND', 'OR') and not self.kids(v):
            out += self.said_objects(self.head(v))
        return out

    def grouped(self, v, dep):
        return [x for k in self.kids(v, dep) for x in self.group(k)]

    def no_object(self, v):
        return bool(self.grouped(v, 'PROP') or self.grouped(v, 'IPROP') or self.grouped(v, 'EXIST'))

    def infinitive(self, v):
        return any([self.rows[k][0] == 'to' and k < v for k in self.kids(v, 'PART')])

    def agents(self, i):
        if self.head(i) < 0 or self.dep(i) not in ('PROP', 'CPL'):
            return []
        return [a for c in self.kids(i, 'CPL') if self.first(c, 'MARK') is not None and self.rows[self.first(c, 'MARK')][0] == 'by' for a in self.group(c)]

    def adjectives(self, noun):
        """Naked adjectives and those it is compared by"""
        out = []
        for c in self.kids(noun, 'CPL'):
            if self.tag[c] == 'ADJ' and not self.kids(c, 'MARK'):
                out += self.group(c)
        if self.dep(noun) == 'CPL' and self.kids(noun, 'CMARK') and self.tag[self.head(noun)] == 'ADJ' and self.noun(noun):
            out += self.group(self.head(noun))
        return out

    def letter(self, i):
        if self.tag[i] == 'ADJ':
            return 'L' if self.active(i) else 'A'
        return CODES.get(self.tag[i], 'N')

    def show(self, code, *words):
        return code + '(' + ', '.join(words) + ')'

    def tuples(self):
        out = []
        taken = set()
        verbs = [v for v in range(self.n) if self.tag[v] == 'VERB' and self.tree(v)]
        for v in verbs:
            if self.infinitive(v) or self.no_object(v):
                continue
            for s in filter(self.noun, self.subjects(v)):
                for w in [o for o in self.objects(v) if self.tag[o] == 'VERB']:
                    taken.add(w)
                    for x in ([s] if not self.subjects(w) else [x for x in self.subjects(w) if self.noun(x)]):
                        head = (self.letter(s) + 'T' + self.letter(x), self.word(s), self.word(v), self.word(x))
                        if not self.no_object(w):
                            if not self.objects(w) and self.word(w) not in ('have', 'get', 'be', 'do'):
                                out.append(self.show(head[0] + 'I', *head[1:], self.word(w)))
                            for o in filter(self.noun, self.objects(w)):
                                out.append(self.show(head[0] + 'T' + self.letter(o), *head[1:], self.word(w), self.word(o)))
                        for p in self.grouped(w, 'PROP'):
                            if self.noun(p) or self.tag[p] == 'ADJ':
                                out.append(self.show(head[0] + 'C' + self.letter(p), *head[1:], self.word(w), self.word(p)))
        for v in verbs:
            if v in taken or self.infinitive(v) or self.no_object(v):
                continue
            for s in filter(self.noun, self.subjects(v)):
                if not self.objects(v) and self.word(v) not in ('have', 'get', 'be', 'do'):
                    out.append(self.show(self.letter(s) + 'I', self.word(s), self.word(v)))
                for o in filter(self.noun, self.objects(v)):
                    out.append(self.show(self.letter(s) + 'T' + self.letter(o), self.word(s), self.word(v), self.word(o)))
                for i in filter(self.noun, self.grouped(v, 'IOBJ')):
                    out.append(self.show(self.letter(s) + 'R' + self.letter(i), self.word(s), self.word(v), self.word(i)))
        for v in verbs:
            if not self.no_object(v) and self.word(v) not in ('have', 'get'):
                for o in filter(self.noun, self.objects(v)):
                    out.append(self.show(self.letter(o) + 'CL', self.word(o), 'be', self.participle(v)))
        for v in range(self.n):
            if not self.tree(v):
                continue
            # properties by a copula
            s = self.first(v, 'SUBJ')
            for p in self.kids(v, 'PROP') if s is not None else []:
                a = self.antecedent(v, s)
                for x in self.group(s if a is None else a):
                    for q in self.group(p):
                        if self.noun(x) and not self.kids(q, *MARKERS) and (self.noun(q) or self.tag[q] == 'ADJ'):
                            out.append(self.show(self.letter(x) + 'C' + self.letter(q), self.word(x), self.word(v), self.word(q)))
                            if self.active(q):
                                for g in filter(self.noun, self.agents(q)):
                                    out.append(self.show(self.letter(g) + 'T' + self.letter(x), self.word(g), self.active(q), self.word(x)))
            # properties given by somebody: "They call him king"
            for p in self.kids(v, 'IPROP'):
                for x in self.objects(v):
                    for q in self.group(p):
                        if self.noun(x) and (self.noun(q) or self.tag[q] == 'ADJ'):
                            out.append(self.show(self.letter(x) + 'C' + self.letter(q), self.word(x), 'be ' + self.participle(v), self.word(q)))
        for x in range(self.n):
            if self.noun(x) and self.tree(x):
                for q in self.adjectives(x):
                    out.append(self.show(self.letter(x) + 'C' + ('L' if self.active(q) else 'A'), self.word(x), 'be', self.word(q)))
                    if self.active(q):
                        for g in filter(self.noun, self.agents(q)):
                            out.append(self.show(self.letter(g) + 'T' + self.letter(x), self.word(g), self.active(q), self.word(x)))
                for c in self.kids(x, 'CPL'):
                    # "a man named Tom"
                    if self.active(c) and not self.kids(c, 'MARK') and self.first(c, 'PROP') is not None:
                        for q in self.group(self.first(c, 'PROP')):
                            if self.noun(q) or self.tag[q] == 'ADJ':
                                out.append(self.show(self.letter(x) + 'C' + self.letter(q), self.word(x), 'be ' + self.word(c), self.word(q)))
        return sorted(out)

    def tree(self, i):
        return self.dep(i) not in ('NODEP', 'ART', 'AUX', 'CMARK', 'NEG', 'INTJ', 'MARK', 'IMARK', 'PART', 'MODAL')
