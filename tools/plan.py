"""Which explorations decide which property, at which bounds."""

ASSUMPTIONS = [
    "the specification (spec/*.tla) is ECMAScript 2018 plus optional catch binding, without Annex B functions-in-if, HTML-like comments, BigInt and numeric separators",
    "small-scope: what is not within the bounds of the slices or the random programs is not explored",
    "parentheses are transparent in the AST (as in ESTree)",
]

SLICES = {
    "C01": "ab", "C08": "abcd", "C09": "abcdefg", "C10": "abcde", "C11": "abcde", "C12": "abcde", "C13": "abcdef",
    "C02": "abcde", "C03": "abcdefg", "C04": "abcd", "C05": "abcd", "C06": "abc", "C07": "abcde",
    "C14": "abc", "C15": "abcd", "C16": "abcd", "C17": "abcd", "C18": "abcd", "C19": "abcd",
    "C21": "abc", "C22": "ab", "C23": "ab",
}
# the largest slices come first and get more TLC workers
LARGE = {"C19a": 6, "C03f": 5, "C04a": 5, "C16a": 4, "C06b": 4, "C03c": 3, "C16d": 3,
         "C12c": 4, "C10a": 4, "C10b": 3, "C01a": 3, "C12e": 3, "C11a": 3, "C21a": 4}
LEXICAL = {"C01", "C08", "C09", "C10", "C11", "C12", "C13", "C21"}
# slices whose bound is not raised in the thorough tier (they would exceed about a million states)
BIG = {"C03a", "C03f", "C04a", "C06b", "C19a", "C12c", "C10a", "C10b"}

# random walks: property -> slice of WalkSlices / WalkLexSlices, number of walks per run
WALKS = {"C01": ("W01", 80), "C02": ("W02", 130), "C03": ("W03", 90), "C04": ("W04", 40), "C05": ("W05", 90), "C06": ("W06", 50),
         "C07": ("W07", 110), "C08": ("W08", 100), "C09": ("W09", 80), "C10": ("W10", 60), "C11": ("W11", 50), "C12": ("W12", 60),
         "C13": ("W13", 60), "C14": ("W14", 130), "C15": ("W15", 80), "C16": ("W16", 90), "C17": ("W17", 100), "C18": ("W18", 130),
         "C19": ("W19", 110), "C21": ("W21", 50), "C22": ("W22", 50), "C23": ("W23", 100)}
# slices whose accepted programs are recorded for C20 (one of so many)
TREES = [("C14a", 8), ("C14b", 8), ("C15a", 24), ("C16b", 24), ("C17a", 8), ("C17c", 8), ("C18a", 24), ("C18c", 8), ("C03b", 16), ("C19b", 8), ("C13b", 40), ("C02d", 8)]
QUICK_RUNS, THOROUGH_RUNS, THOROUGH_FACTOR = 4, 8, 20


def PLAN(prop, tier):
    tasks = []
    for x in SLICES.get(prop, ""):
        n = prop + x
        t = {"kind": "slice", "slice": n}
        if prop == "C21":
            t["kind"] = "lines"
        if prop in LEXICAL:
            t["module"] = "ExploreLex.tla"
        if tier == "thorough":
            t["extra"] = 0 if n in BIG else 1
            t["third"] = 3000000
        t["workers"] = LARGE.get(n, 2)
        tasks.append(t)
    if prop in WALKS:
        w, num = WALKS[prop]
        for k in range(QUICK_RUNS if tier == "quick" else THOROUGH_RUNS):
            tasks.append({"kind": "walk", "walk": w, "seed": k, "module": "WalkLex.tla" if prop in LEXICAL else "Walk.tla",
                          "num": num * (1 if tier == "quick" else THOROUGH_FACTOR), "lines": prop == "C21", "workers": 1})
    corpora = ["corpus/snippets.txt", "corpus/features.txt"]
    quick = tier == "quick"
    if prop in ("C24", "C21"):
        for k in range((8 if prop == "C24" else 4) if quick else 16):
            tasks.append({"kind": "judge", "seed": 900 + k, "count": (12000 if prop == "C24" else 3500) if quick else 40000, "corpus": corpora,
                          "whole": k == 0, "lines": prop == "C21", "max": 400 if quick else 1200})
    if prop == "C24" and not quick:
        for k, f in enumerate(["react.js", "react-dom.js", "angular.js"]):
            tasks.append({"kind": "judge", "seed": 950 + k, "count": 0, "corpus": ["/repo/giron/tests/source/" + f], "whole": True, "chunk": 1000})
    if prop == "C20":
        for k in range(3 if quick else 12):
            tasks.append({"kind": "record", "seed": 970 + k, "count": 12000 if quick else 60000, "corpus": corpora, "whole": k == 0, "max": 400 if quick else 1200})
        for k, w in enumerate(sorted(x for x in WALKS if x != "C21")):
            tasks.append({"kind": "treewalk", "walk": WALKS[w][0], "seed": 30 + k, "module": "WalkLex.tla" if w in LEXICAL else "Walk.tla",
                          "num": 15 if quick else 400, "one_of": 1 if quick else 4, "workers": 1})
        for n, one_of in TREES if quick else [(n, 1 + m // 8) for n, m in TREES]:
            tasks.append({"kind": "treeslice", "slice": n, "one_of": one_of, "module": "ExploreLex.tla" if n[:3] in LEXICAL else "Explore.tla",
                          "seed": 0, "extra": 0, "workers": 2})
    tasks.sort(key=lambda t: -t.get("workers", 2))
    return {"tasks": tasks}


NOTES = {}
NOT_APPLICABLE = {}
