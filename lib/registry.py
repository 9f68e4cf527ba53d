"""Which function decides which property."""
import json
import harness as H
import lexchecks as L
import parchecks as P

CHECKS = {
    "C01": L.c01, "C02": L.c02, "C03": L.c03, "C04": L.c04, "C05": L.c05,
    "C06": L.c06, "C07": L.c07, "C08": L.c08, "C09": L.c09, "C10": P.c10,
    "C11": P.c11, "C12": P.c12, "C13": P.c13, "C14": P.c14, "C15": P.c15,
    "C16": P.c16, "C17": P.c17, "C18": P.c18, "C19": L.c19, "C20": P.c20,
}

# Models of the mechanisms, checked against the definitions the judges use:
# (module, configurations of the quick tier, further ones of the thorough tier).
MODELS = {
    "C01": [("MCPattern", ["MCPattern"], [])],
    "C02": [("MCPattern", ["MCPattern"], ["MCPatternDeep"])],
    "C03": [("MCSyntax", ["MCSyntax"], ["MCSyntaxDeep"])],
    "C05": [("MCLexer", ["MCLexer"], ["MCLexerDeep"])],
    "C06": [("MCLexer", ["MCLexer"], [])],
    "C07": [("MCLexer", ["MCLexer"], [])],
    "C08": [("MCLexer", ["MCLexer", "MCLexerLive"], [])],
    "C09": [("MCLexer", ["MCLexerLive"], [])],
    "C11": [("MCCfsm", ["MCCfsm"], ["MCCfsmDeep"])],
    "C12": [("MCSlr", ["MCSlr"], ["MCSlrTwo", "MCSlrDeep"])],
    "C13": [("MCSlr", ["MCSlr"], ["MCSlrTwo"])],
    "C14": [("MCSlr", ["MCSlr", "MCSlrTwo"], ["MCSlrDeep"])],
    "C15": [("MCSlr", ["MCSlr", "MCSlrLive"], [])],
    "C17": [("MCWorkLists", ["MCWorkLists", "MCWorkListsLive"], ["MCWorkListsDeep"])],
    "C18": [("MCPipeline", ["MCPipeline"], ["MCPipelineDeep"])],
}


def models(ctx):
    for module, quick, thorough in MODELS.get(ctx.prop, []):
        for cfg in quick + ([] if ctx.quick else thorough):
            ctx.model(module, cfg)


ASSUMPTIONS = [
    "bounds: exhaustive up to the stated sizes, seeded samples beyond them",
    "a call that needs more than 20 s (40 s on the second try, alone) or 6 GB does not come back",
    "the table of alphabetic characters is taken from the standard library of the toolchain",
]


def replay(ctx, path):
    """Runs one recorded case again on the current tree."""
    with open(path) as f:
        b = json.load(f)
    c = b["case"]
    k = c["kind"]
    if k == "L":
        L.run_lex(ctx, [([tuple(r) for r in c["rules"]], c["input"])], extra=c["extra"])
    elif k == "M":
        L.run_regex(ctx, [(c["pattern"], c["words"])], deep=c["deep"])
    elif k == "S":
        L.run_syntax(ctx, [c["pattern"]], batch=1)
    elif k == "U":
        L.run_unicode(ctx, [c["pattern"]])
    elif k == "G":
        P.run_gram(ctx, [(c["ops"], c["inputs"], c["fluent"])], flags=c["flags"],
                   small=c.get("small", False))
    elif k == "GG":
        # hash seeds differ from run to run
        P.run_same(ctx, [c["group"]] * 20, flags=c["flags"])
    elif k == "P":
        P.run_pipe(ctx, [(c["ops"], c["rules"], c["inputs"])])
    if ctx.bad:
        print(f"VIOLATION property={ctx.prop} replay={path}")
        return 1
    print(f"{ctx.prop}: {path} is a behaviour of the specification")
    return 0

_TRACE = "records of the real lexer judged by TLC against "
_PARSE = "records of the real parser generator judged by TLC against "
TECHNIQUE = {
    "C01": _TRACE + "the TLA+ denotation of patterns (RegexTrace, PatternLang, PatternMachine); patterns enumerated by TLC",
    "C02": _TRACE + "the TLA+ denotation of patterns (RegexTrace, PatternLang, PatternMachine); patterns enumerated by TLC",
    "C03": _TRACE + "the TLA+ pattern grammar (LexTrace, PatternSyntax)",
    "C04": _TRACE + "the TLA+ character sets over all Unicode scalar values (UniTrace, RegexTrace, Chars, PatternSyntax)",
    "C05": _TRACE + "maximal munch (LexTrace, LexAbs, PatternMachine)",
    "C06": _TRACE + "the precedence of patterns (LexTrace, LexAbs, PatternMachine)",
    "C07": _TRACE + "the tiling of the input (LexTrace, LexAbs)",
    "C08": _TRACE + "the end of the token stream (LexTrace, LexAbs, PatternMachine)",
    "C09": _TRACE + "the rule that every call returns a token or the end (LexTrace)",
    "C10": _PARSE + "the TLA+ model of the builder (GramTrace, SameTrace, Builder); call sequences enumerated up to a length",
    "C11": _PARSE + "the canonical LR(0) collection (GramTrace, Lr0); grammars enumerated by TLC",
    "C12": _PARSE + "the SLR(1) condition (GramTrace, Lr0, Cfg); grammars enumerated by TLC",
    "C13": _PARSE + "runs of the shift-reduce machine: the returned tree is one (GramTrace, LrMachine); grammars enumerated by TLC",
    "C14": _PARSE + "the derivations of the grammar (GramTrace, Cfg, LrMachine); grammars enumerated by TLC",
    "C15": _PARSE + "the rule that every parse has a verdict (GramTrace, LrMachine); grammars enumerated by TLC",
    "C16": _PARSE + "the SLR(1) machine over kinds and the tokens as leaves (GramTrace, LrMachine)",
    "C17": _PARSE + "each other: all constructions of what the model calls one grammar (SameTrace, Builder)",
    "C18": _PARSE + "the composition of the lexer and parser models (PipeTrace, Pipeline)",
    "C20": _PARSE + "each other: grammars the model of the builder calls the same (SameTrace, Builder)",
    "C19": _TRACE + "the spans errors may have (LexTrace, PatternSyntax)",
}
NOTE = {
    "C01": "exhaustive: all patterns of up to 6 (thorough 7) tokens over a b ( ) | * + ? on all words up to length 4 (5); sampled beyond that",
    "C02": "exhaustive: all patterns of up to 5 tokens with a counted repetition on all words up to length 4 (5); sampled beyond that",
    "C03": "exhaustive: all strings up to length 4 (5) over the syntax characters; sampled beyond that",
    "C04": "exhaustive over all 1112064 scalar values for a list of sets; all escapes of one byte; samples of the others",
    "C05": "sampled lexers and inputs, with all pairs of a pattern family on all short words",
    "C06": "sampled lexers and inputs, up to 500 patterns",
    "C07": "sampled lexers and inputs, up to 70000 characters",
    "C08": "sampled lexers and inputs; unlexable characters at every place of some inputs",
    "C09": "finite inputs up to 2000 (8000) characters; not coming back is observed as a timeout",
    "C10": "exhaustive: all sequences of up to 4 (5) out of 9 builder calls; sampled sequences beyond that",
    "C11": "exhaustive: all grammars with 1 variable, 2 terminals, up to 3 rules of up to 3 symbols, and 2 variables, 1 terminal, 2 rules each of up to 2 symbols; families and samples beyond that",
    "C12": "exhaustive as C11; families and samples beyond that",
    "C13": "exhaustive: grammars as C11 on all words up to length 4 (6) or 6 (8); families and samples beyond that; inputs up to 1500 (4000) tokens, some grammars up to 70000",
    "C14": "as C13",
    "C15": "as C13; not coming back is observed as a timeout; grammars with variables that derive nothing are outside the property",
    "C16": "sampled grammars, payloads and inputs",
    "C17": "10 (18) constructions per grammar, each with its own hash seeds; families and samples",
    "C18": "sampled grammars, lexers and inputs",
    "C20": "sampled insertions; grammars partly enumerated by TLC",
    "C19": "as C03, for the strings that are rejected",
}
