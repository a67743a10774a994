T = 'scrappybara/preprocessing/tokenizer.py'
S = 'scrappybara/preprocessing/sentencizer.py'
seed('c01a', 'C01', [(T, r"""(re.compile(r"'(\s|$)"), " ' "),""", r"""(re.compile(r"'(\W|$)"), " ' "),""")],
     'a single quote directly followed by another punctuation mark at a word end', 'the mark after the quote is lost',
     r'''
from scrappybara.preprocessing.tokenizer import Tokenizer
t = "the dogs'-house"
assert ''.join(Tokenizer()(t)) == t.replace(' ', ''), Tokenizer()(t)
''')
seed('c01b', 'C01', [(T, r"""r'\b([A-Z])\s&\s([A-Z])\s([A-Z])\b'""", r"""r'\b([A-Z])\s&\s([A-Z])\s([A-Z])'""")],
     'initials around an ampersand followed by a capitalised word', 'glues words that white space separates',
     """
from scrappybara.preprocessing.tokenizer import Tokenizer
r = Tokenizer()("the A & B Corporation left")
assert r[-2] == 'Corporation', r
""")
seed('c02a', 'C02', [(T, r"""re.compile(r'([:;]-?\))|([:;]-?\()', re.I),  # Common smileys
    ]""", r"""re.compile(r'([:;]-?\))|([:;]-?\()', re.I),  # Common smileys
    ]
    __max_protected = 9"""),
    (T, """            while match:
                token""", """            while match and index <= self.__max_protected + 1:
                token""")],
     'eleven or more protected passages in one text', 'later addresses are split',
     r'''
from scrappybara.preprocessing.tokenizer import Tokenizer
u = ['www.site%d.com/a,b' % i for i in range(14)]
assert Tokenizer()(' '.join(u)) == u
''')
seed('c03a', 'C03', [(S, """            shift += len(quote) - 4 - len(number)""", """            shift += len(quote) - 5""")],
     'a text with more than ten quoted passages, two of them in one line after the tenth', 'characters are cut or duplicated',
     r'''
from scrappybara.preprocessing.sentencizer import Sentencizer
t = ' '.join('alpha "beta%d" gamma' % i for i in range(14))
got = ''.join(''.join(s) for s in Sentencizer()(t))
assert got == t.replace(' ', ''), got
''')
seed('c04a', 'C04', [(S, """r'([.?!:]+|¶)'""", """r'([.?!]{1,3}|:|¶)'""")],
     'a run of four or more marks', 'the run does not end its sentence',
     r'''
from scrappybara.preprocessing.sentencizer import Sentencizer
r = Sentencizer()('He said so.... They left')
assert len(r) == 2 and r[0][-1] == '....', r
''')
seed('c04b', 'C04', [(S, r"""r'\s*[\t\n\r]+\s*'""", r"""r'\s*[\t\n]+\s*'""")],
     'lines separated by carriage returns only', 'two lines become one sentence',
     r'''
from scrappybara.preprocessing.sentencizer import Sentencizer
r = Sentencizer()('He said so\rThey left')
assert len(r) == 2, r
''')
