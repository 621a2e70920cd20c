"""Which behaviours are explored per property and tier: environments of spec/Gen.tla.

PLAN which calls are made on each tree; ROOT the sort of the trees' root; DEPTH how many templates are put
into each other exhaustively; WALKS, STEPS pseudo-random larger trees; SORTS the slots that are filled.
"""


def g(plan, root, depth=0, walks=0, steps=0, sorts="", edits=0, **kw):
    return dict(PLAN=plan, ROOT=root, DEPTH=depth, WALKS=walks, STEPS=steps, SORTS=sorts, EDITS=edits, **kw)


def laws(module):
    """laws of the specification itself, checked by TLC"""
    return dict(module=module, laws=True)


PLANS = {
    "P01": {"quick": [g("parse", "x", 1, 800, 6), g("nearp", "nearx,leafx,longx,nestx,turnx")],
            "thorough": [g("parse", "x", 1, 60000, 8), g("parseall", "x", 1, 3000, 12), g("parse", "words"), g("nearp", "nearx,leafx,longx,nestx,turnx"), g("both", "derived", 0, 60000, 8)]},
    "P02": {"quick": [g("parse", "q", 1, 800, 6), g("parse", "clauses,groups"), g("nearp", "nearq,leafq,nearg,leafg,nearsel,leafsel,longq,longg,longn,nestq")],
            "thorough": [g("parse", "q", 1, 60000, 7), g("parseall", "q", 1, 3000, 12), g("parseall", "clauses,groups"), g("nearp", "nearq,leafq,nearg,leafg,nearsel,leafsel,longq,longg,longn,nestq")]},
    "P03": {"quick": [g("print", "x", 1, 2000, 6), g("nears", "nearx,leafx,longx,nestx,turnx,oddnums")],
            "thorough": [g("print", "x", 1, 100000, 8), g("print", "x", 0, 5000, 20), g("print", "numbers,calls"), g("nears", "nearx,leafx,longx,nestx,turnx,oddnums")]},
    "P04": {"quick": [g("print", "q", 1, 1500, 6), g("print", "r", 1, 500, 5), g("print", "clauses,groups"), g("nears", "nearq,leafq,nearr,leafr,nearg,leafg,nearsel,leafsel,longq,longr,longg,longn,nestq,nestr")],
            "thorough": [g("print", "q", 1, 60000, 8), g("print", "r", 1, 30000, 8), g("print", "q", 0, 3000, 20), g("print", "clauses,groups,windefs"), g("nears", "nearq,leafq,nearr,leafr,nearg,leafg,nearsel,leafsel,longq,longr,longg,longn,nestq,nestr")]},
    "P05": {"quick": [g("format", "q", 1, 300, 6), g("format", "multiline"), g("format", "x", 0, 1000, 5), g("format", "ty", 1), g("cli", "q", 0, 200, 5), g("cli", "x", 0, 100, 4), g("cli", "ty", 0), g("cli", "strings2,multiline"), g("format", "longq,longr,longg,longn,nestq,nestr,longx,nestx,turnx,oddtexts,oddnames,oddnums")],
            "thorough": [g("format", "q", 1, 20000, 8), g("format", "x", 1, 10000, 8), g("format", "ty", 1, 2000, 5), g("format", "strings2,names,clauses"), g("cli", "q", 0, 5000, 6), g("cli", "x", 0, 5000, 6), g("cli", "ty", 1), g("cli", "strings3,multiline,names"), g("format", "longq,longr,longg,longn,nestq,nestr,longx,nestx,turnx,oddtexts,oddnames,oddnums")]},
    "P06": {"quick": [g("options", "q", 1, 600, 6), g("options", "x", 0, 1500, 5), g("options", "strings2,multiline,oddtexts,longx,nestx,longq,nestq")],
            "thorough": [g("options", "q", 1, 30000, 8), g("options", "x", 1, 20000, 8), g("options", "strings3,multiline,clauses,names,oddtexts,oddnames,longx,nestx,turnx,longq,longr,longg,longn,nestq,nestr")]},
    "P07": {"quick": [g("layout", "wraps1,clauses,multiline,longq,longr,longg,longn,nestq,nestr,longx,nestx"), g("layouts", "q", 0, 300, 6), g("layouts", "r", 0, 150, 5), g("layout", "x", 0, 300, 6)],
            "thorough": [g("layout", "wraps,clauses,multiline,windows,groups,mods,calls,names,numbers,longq,longr,longg,longn,nestq,nestr,longx,nestx,turnx,oddnums"), g("layouts", "q", 1, 10000, 8), g("layouts", "r", 1, 3000, 6), g("layouts", "x", 1, 5000, 6)]},
    "P08": {"quick": [g("both", "strings2,multiline,numbers,numbertexts,littexts,oddtexts,oddnums")],
            "thorough": [g("both", "strings3,multiline,strings2,numbers,numbertexts,littexts,oddtexts,oddnums")]},
    "P09": {"quick": [g("both", "names,words,oddnames")],
            "thorough": [g("both", "names,words,oddnames"), g("format", "names"), g("options", "names")]},
    "P10": {"quick": [g("both", "unsup,alts,places"), g("edit", "q", 0), g("redit", "x", 0, edits=12), g("redit", "q", 0, 200, 3, edits=12), g("redit", "ty", edits=6), g("both", "derived", 0, 1500, 5), g("nearp", "nearx,nearq,nearr,nearw")],
            "thorough": [g("both", "unsup,alts,places"), g("edit", "q", 0, 2000, 4), g("edit", "x", 0, 2000, 4), g("edit", "r", 0, 500, 3), g("edit", "ty", 1), g("redit", "x", 0, 2000, 4, edits=60), g("redit", "q", 0, 2000, 4, edits=60), g("redit", "w", 0, 100, 2, edits=60), g("redit", "ty", 1, edits=12), g("both", "derived", 0, 60000, 8), g("nearp", "nearx,nearq,nearr,nearw,nearg,nearo,nearsel,nearty")]},
    "P11": {"quick": [g("both", "calls,mods,calltexts,longx")],
            "thorough": [g("both", "calls,mods,calltexts,longx"), g("both", "calls", 0, 20000, 4), g("redit", "calls", edits=12)]},
    "P12": {"quick": [g("both", "w", 1, 300, 3), g("both", "o", 1), g("both", "x", 1, sorts="w,o,b"), g("both", "longw,windows"), g("nearp", "nearw,leafw,nearo,leafo"), g("nears", "nearw,leafw,nearo,leafo")],
            "thorough": [g("both", "w", 2, sorts="b,o"), g("both", "w", 1, 20000, 4), g("both", "o", 1), g("both", "x", 1, 20000, 4, sorts="w,o,b,x"), g("both", "longw,windows,windefs"), g("edit", "w"), g("nearp", "nearw,leafw,nearo,leafo"), g("nears", "nearw,leafw,nearo,leafo")]},
    "P13": {"quick": [g("both", "q", 1, sorts="q"), g("both", "q", 0, 1500, 4, sorts="q,r,cte"), g("both", "nestq")],
            "thorough": [g("both", "q", 2, sorts="q"), g("both", "q", 0, 30000, 6, sorts="q,r,cte"), g("edit", "q", 0, 3000, 3, sorts="q"), g("both", "nestq")]},
    "P14": {"quick": [g("valid", "validjoins"), g("both", "r", 1, sorts="r,c,q"), g("both", "r", 0, 1500, 4, sorts="r,c,q"), g("nearp", "nearr,leafr"), g("nears", "nearr,leafr"), g("both", "longr,nestr")],
            "thorough": [g("valid", "validjoins"), g("both", "r", 2, sorts="r,c"), g("both", "r", 0, 30000, 7, sorts="r,c,q,x"), g("edit", "r", 0, 3000, 3, sorts="r,c"), g("nearp", "nearr,leafr"), g("nears", "nearr,leafr"), g("both", "longr,nestr")]},
    "P15": {"quick": [g("valid", "validtypes"), g("both", "ty", 1), g("both", "typetexts,longty,nestty"), g("nearp", "nearty"), g("nears", "nearty")],
            "thorough": [g("valid", "validtypes"), g("both", "ty", 1, 20000, 4), g("both", "typetexts,longty,nestty"), g("edit", "ty", 1), g("redit", "ty", 1, edits=40), g("nearp", "nearty"), g("nears", "nearty")]},
    "P16": {"quick": [g("super", "alltypes"), g("reduce", "alltypes")],
            "thorough": [laws("TypesLaws"), g("super", "alltypes"), g("reduces", "alltypes")]},
    "P17": {"quick": [g("literal", "typedlits"), g("pairs", "tabletypes"), g("fns", "tabletypes"), g("dtype", "x", 0, 1500, 5), g("dtype", "calls"), g("dtype", "q", 0, 400, 4), g("dtype", "longx,nestx")],
            "thorough": [g("literal", "typedlits"), g("pairs", "tabletypes"), g("fns", "tabletypes"), g("dtypes", "x", 1, 5000, 6), g("dtypes", "calls"), g("dtypes", "q", 0, 3000, 5), g("dtype", "longx,nestx")]},
    "P18": {"quick": [g("froms", "froms1,crosses"), g("quals", "quals"), g("scopes", "q", 0, 1500, 6), g("scopes", "x", 0, 600, 4), g("scopes", "longq,longr,nestq,nestr,nestx")],
            "thorough": [g("froms", "froms1,crosses,usings,joins"), g("quals", "quals"), g("scopes", "q", 1, 20000, 8), g("scopes", "x", 1, 5000, 6), g("scopes", "r", 1, 5000, 6), g("scopes", "longq,longr,nestq,nestr,nestx")]},
    "P19": {"quick": [g("froms", "froms1,usings"), g("scope", "setsof"), g("scopes", "r", 0, 500, 5), g("scopes", "q", 0, 500, 7), g("clischema", "q", 0, 100, 5), g("scopes", "longq,longr,longn,nestq,nestr")],
            "thorough": [g("froms", "froms1,usings,joins"), g("scope", "setsof"), g("scopes", "q", 1, 20000, 6, sorts="q,r,sel,cte"), g("scopes", "r", 1, 10000, 6), g("clischema", "q", 1, 3000, 6), g("scopes", "longq,longr,longn,nestq,nestr")]},
    "P20": {"quick": [g("session", "x", 0, 600, 5), g("session", "q", 0, 500, 5), g("session", "r", 0, 200, 4), g("session", "w"), g("session", "groups"), g("session", "longq,longr,longg,longw,nestq,nestr")],
            "thorough": [g("session", "x", 1, 5000, 6), g("session", "q", 1, 5000, 6), g("session", "r", 0, 5000, 5), g("session", "w"), g("session", "groups,clauses,calls"), g("session", "longq,longr,longg,longw,nestq,nestr")]},
    "P21": {"quick": [g("equals", "x", 0, 200, 4), g("equals", "q", 0, 120, 4), g("equals", "r", 0, 100, 3), g("equals", "w"), g("equals", "ty", 1), g("equals", "longq,longr,longg,longty,longw,nestr")],
            "thorough": [g("equalsall", "x", 0, 1500, 5), g("equalsall", "q", 0, 800, 5), g("equalsall", "r", 0, 800, 4), g("equalsall", "w"), g("equals", "w", 1), g("equalsall", "ty", 1), g("equals", "x", 1), g("equals", "longq,longr,longg,longty,longw,nestr")]},
    "P22": {"quick": [g("visit", "x", 0, 500, 5), g("visit", "q", 0, 500, 5), g("visit", "r", 0, 300, 4), g("visit", "w"), g("visit", "groups,calls,mods"), g("visit", "longq,longr,longg,longn,nestq,nestr,longx,nestx")],
            "thorough": [g("visit", "x", 1, 20000, 6), g("visit", "q", 1, 10000, 6), g("visit", "r", 1, 5000, 5), g("visit", "w", 1), g("visit", "groups,calls,mods,windefs,clauses"), g("visit", "longq,longr,longg,longn,nestq,nestr,longx,nestx")]},
    "P23": {"quick": [g("pyop", "programs,makes")],
            "thorough": [g("pyop", "programs,makes,programs3")]},
    "P24": {"quick": [g("show", "q", 0, 600, 5), g("show", "x", 0, 1200, 5), g("show", "r", 0, 200, 4), g("show", "ty", 1), g("show", "longq,longr,longg,longn,nestq,nestr,longx,nestx,longty,nestty,oddtexts,oddnums,strings2,multiline,calls,windows,groups,clauses")],
            "thorough": [g("show", "q", 1, 5000, 7), g("show", "x", 1, 5000, 8), g("show", "r", 1, 2000, 5), g("show", "ty", 1, 2000, 4), g("show", "longq,longr,longg,longn,nestq,nestr,longx,nestx,longty,nestty,oddtexts,oddnums,strings2,multiline,calls,windows,groups,clauses,names,numbers,mods")]},
}

_REPLAY = "TLC enumerates behaviours, the library runs them, TLC replays the recorded traces against the specification"
_TREES = ("TLC enumerates every tree up to the stated template depth plus seeded random walks; each is run on the library and "
          "every recorded call is checked by TLC against the specification's own ")
NOTES = {
    "P01": (_TREES + "grammar (Grammar.tla).", _REPLAY),
    "P02": (_TREES + "grammar (Grammar.tla).", _REPLAY),
    "P03": (_TREES + "grammar: the printed text must be read as the tree.", _REPLAY),
    "P04": (_TREES + "grammar: the printed text must be read as the tree.", _REPLAY),
    "P05": (_TREES + "state machine: parse, print, parse, print, command line.", _REPLAY),
    "P06": (_TREES + "lexer: same tokens in each mode.", _REPLAY),
    "P07": (_TREES + "layout (Layout.tla): the printed text line by line, in both modes and several indentations; lists on either side of every wrap width.", _REPLAY),
    "P12": (_TREES + "grammar; windows, frames and sort items.", _REPLAY),
    "P13": (_TREES + "grammar; set operations and limits.", _REPLAY),
    "P14": (_TREES + "grammar; relations.", _REPLAY),
    "P08": (_TREES + "lexer and grammar; literals.", _REPLAY),
    "P09": (_TREES + "lexer and grammar; names.", _REPLAY),
    "P10": (_TREES + "grammar: edits of valid texts and unsupported constructs must be rejected exactly when it rejects them.", _REPLAY),
    "P11": (_TREES + "catalogue of functions.", _REPLAY),
    "P15": (_TREES + "grammar; data types.", _REPLAY),
    "P16": ("TLC takes every pair of a universe of types, and pseudo-random longer lists, and checks the answers of the library against the least upper bound of the "
            "order of implicit coercions (whose laws TLC checks as well).", _REPLAY),
    "P17": ("TLC enumerates expressions over columns of all types (all pairs of types for the operators and conditionals, all types for the functions, trees otherwise) "
            "and checks every reported type against the specification's typing rules.", _REPLAY),
    "P18": ("TLC enumerates queries whose names come from a small pool (all pairs of relations in a join by select items, trees and walks with pseudo-random names), the library resolves "
            "them against schemas whose columns all have different types, and TLC compares the type at every column reference with the specification's scoping rules.", _REPLAY),
    "P19": ("TLC enumerates queries over schemas (joins, set operations, stars, aliases, VALUES, UNNEST, WITH), the library resolves them, and TLC compares the columns it returns, and those "
            "that the schema command prints, with the specification's.", _REPLAY),
    "P20": ("TLC enumerates sessions: trees built, read, spoiled, neighbours, pseudo-random calls in between; the library runs them, everything held is dumped "
            "after every call, and TLC checks every step against the state machine.", _REPLAY),
    "P21": ("TLC enumerates trees and, for each, the trees one change away from it; equals is asked both ways and compared with equality of the specification's trees.", _REPLAY),
    "P22": (_TREES + "list of nodes a visitor is to be shown.", _REPLAY),
    "P24": (_TREES + "tree: what the commands draw, read back, is the tree, and the tokens of the text.", _REPLAY),
    "P23": ("TLC enumerates programs of operators, values and constructors; the library runs them and TLC compares the trees with what the program spells.", _REPLAY),
}
