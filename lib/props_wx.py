"""Checks over the symbolically executed wasm build of the library: extraction, padding, entry points."""
import json, os, random, re, subprocess, time, traceback
import aig, circom, common, corpus, entry, prio, rref, symcirc, tv, wx
from common import Report, SEED, THOROUGH, REPO
from props import check, ASSUME_CIRC

ASSUME_WX = [
    "the wasm build of the same sources behaves as the native build; counterexamples are replayed on the native build (or, for the JavaScript packages, under node)",
    "crates/wsym executes WebAssembly as specified (floating point only on concrete values); its paths are checked to partition the input domain",
    "texts are well-formed UTF-8; JavaScript strings, arrays and numbers cross the boundary as wasm-bindgen passes them (crates/wsym/src/js.rs)",
]
ASSUME_PRIO = ["lib/prio.py gives regexes the leftmost-first meaning of backtracking engines (cross-checked against Python's re on random cases)"]


def gather(rep, results, what, bounds):
    errors = tv.collect(rep, results)
    tot = {k: sum(r.info.get(k, 0) for r in results) for k in ("jobs", "paths", "steps", "decisions", "inputs", "matching")}
    fns = set()
    for r in results:
        fns |= r.info.get("fns", set())
    mine = ours(fns)
    rep.cov.update(
        rule=what, bounds=bounds, symbolic_runs=tot["jobs"], paths=tot["paths"], instructions=tot["steps"],
        branch_decisions=tot["decisions"], inputs_covered=float(tot["inputs"]), runs_with_a_match=tot["matching"],
        largest_number_of_symbolic_bytes=max([r.info.get("symbolic", 0) for r in results] or [0]),
        longest_text=max([r.info.get("length", 0) for r in results] or [0]),
        functions_encoded=mine, functions_of_libraries=len(fns) - len(mine),
    )
    return errors


def ours(fns):
    """Paths of the repository's own functions among mangled names."""
    fns = sorted(f for f in fns if "zk_regex_" in f)
    try:
        t = subprocess.run(["c++filt"], input="\n".join(fns), capture_output=True, text=True).stdout.split("\n")
    except OSError:
        t = fns
    out = set()
    for n in t:
        n = re.sub(r"\[[0-9a-f]{8,}\]", "", n)
        m = re.match(r"<?(zk_regex_(?:apis|compiler)(?:::\w+)+)", n)
        if m:
            out.add(m[1])
    return sorted(out)


@check("C11")
def c11():
    wx.build()
    rep = Report("C11", "model_checking")
    deep = THOROUGH
    cs = wx.ext_hand() + wx.ext_rnd(SEED, 1500 if deep else 160)
    res = tv.run(wx.long_jobs(deep) + [(p, SEED * 1000 + i, 20000 if deep else 2500, deep) for i, p in enumerate(cs)], wx.c11_task)
    errors = gather(rep, res, "for each list of parts: is there a text for which extraction (Rust or JavaScript API) panics, fails with a match, succeeds without one, or returns other spans or strings than the leftmost match?",
                    f"{len(cs)} lists of parts (handwritten and random with seed {SEED}); every ASCII text up to the length at which a run needs more than the path limit, texts around a match with up to {4 if deep else 3} open bytes, multi-byte characters with open bytes; three regexes with up to three open bytes behind {131070 if deep else 66000} bytes of filler")
    rep.assumptions = ASSUME_WX + ASSUME_PRIO
    if rep.cov["runs_with_a_match"] < len(cs):
        errors.append("hardly any run has a match")
    return rep, errors


@check("C12")
def c12():
    wx.build()
    rep = Report("C12", "model_checking")
    deep = THOROUGH
    its = [i for i in corpus.shipped() + corpus.hand() + corpus.many(SEED + 3, 1200 if deep else 100) if any(p for p, _ in i.parts)]
    res = tv.run([(p, SEED * 1000 + i, 8000 if deep else 1500, deep) for i, p in enumerate(its)], wx.c12_task)
    errors = gather(rep, res, "for each regex with public parts: is there a text on which extraction and the circuit's honest witness disagree about there being a match (extraction must find one whenever the circuit accepts and none where the regex has none; the circuit must accept whenever its left-to-right scan reaches a match), or, where the match is the only one, about the bytes of a public part?",
                    f"{len(its)} regexes; every ASCII text without zero bytes up to the length at which a run needs more than the path limit, and texts around a match with open bytes; the circuit reads the text followed by one zero")
    rep.assumptions = ASSUME_WX + ASSUME_CIRC + ["lib/rref.py decides which texts have a single match"]
    if rep.cov["programs"] < len(its) // 3:
        errors.append(f"only {rep.cov['programs']} of {len(its)} regexes could be examined")
    return rep, errors


@check("C13")
def c13():
    wx.build()
    rep = Report("C13", "model_checking")
    deep = THOROUGH
    tasks = []
    for i, name in enumerate(wx.EXTRACTORS):
        for j, side in enumerate(("", "js_")):
            ts = wx.c13_texts(name, random.Random(SEED * 100 + i), deep)
            if side and not deep:
                ts = [d for d in ts if len(d) > 1000] + [d for d in ts[j::4] + ts[-6:] if len(d) <= 1000]
            size = 12
            tasks += [(name, side, ts[k:k + size], 30000 if deep else 6000) for k in range(0, len(ts), size)]
    res = tv.run(tasks, wx.c13_task)
    errors = gather(rep, res, "for each built-in extractor (Rust and JavaScript): is there a text for which its span or failure differs from the leftmost match of its field's definition?",
                    f"texts of the field's form, several lines and near misses, with every run of neighbouring bytes open in turn, random bytes open, a multi-byte character anywhere, and every short ASCII text (after the field's name as well); one open byte of the field behind a line of {131070 if deep else 66000} characters")
    rep.cov["extractors"] = wx.EXTRACTORS
    rep.assumptions = ASSUME_WX + ASSUME_PRIO + ["the definitions are those of the shipped circuits (packages/circom/circuits/common/*.json); for From and To addresses, the one in lib/wx.py address_parts"]
    return rep, errors


@check("C14")
def c14():
    wx.build()
    rep = Report("C14", "model_checking")
    jobs = wx.c14_jobs(THOROUGH)
    res = tv.run(jobs, wx.c14_task)
    errors = gather(rep, res, "is there a text and a size for which padding (Rust or JavaScript) returns anything but the complete text followed by zeros to that size, or fails although the text fits?",
                    f"texts of 0 to {32 if THOROUGH else 16} bytes with every byte open (ASCII; several mixes of multi-byte characters), every size from 0 to 255; those and texts up to 1000 bytes (20 open) at sizes up to {100000 if THOROUGH else 4096}")
    rep.assumptions = ASSUME_WX
    return rep, errors


@check("C15")
def c15():
    wx.build()
    os.environ["ZKCLI_EXE"] = common.build_cli()
    rep = Report("C15", "model_checking")
    jobs = wx.c15_jobs(SEED, THOROUGH)
    deadline = time.time() + (6 * 3600 if THOROUGH else 560)
    res = tv.run([j + (deadline,) for j in jobs], wx.c15_task)
    errors = gather(rep, res, "for each template of a regex, transition list or definition with open bytes: is there a text for which extraction or the compiler panics or does not end?",
                    f"{len(jobs)} templates of regexes (alone, and as a part between others), transition lists and definitions (JSON), one or two bytes open (all of ASCII; for pairs and for some compilations a set of metacharacters), in extraction, genFromRaw, genFromDecomposed and the JavaScript configuration; one path may take {wx.PATH_STEPS} instructions")
    rep.cov["templates_by_entry_point"] = {}
    for r in res:
        if r.programs:
            rep.cov["templates_by_entry_point"][r.name] = rep.cov["templates_by_entry_point"].get(r.name, 0) + 1
    rep.cov["skipped"] = {}
    for r in res:
        if r.skipped:
            rep.cov["skipped"][r.skipped] = rep.cov["skipped"].get(r.skipped, 0) + 1
    rep.cov["paths_handled"] = sum(r.info.get("handled", 0) for r in res)
    rep.cov["paths_refused_with_an_error"] = sum(r.info.get("refused", 0) for r in res)
    rep.cov["paths_over_the_step_limit_that_end_natively"] = sum(r.info.get("slow", 0) for r in res)
    rep.assumptions = ASSUME_WX
    if rep.cov["programs"] < len(jobs) // 6:
        errors.append(f"only {rep.cov['programs']} of {len(jobs)} templates could be examined")
    return rep, errors


@check("C17")
def c17():
    wx.build()
    os.environ["ZKCLI_EXE"] = common.build_cli()
    rep = Report("C17", "translation_validation")
    deep = THOROUGH
    its = corpus.shipped() + corpus.hand() + corpus.many(SEED + 17, 600 if deep else 60)
    jobs = [("open", (c, d, time.time() + (3 * 3600 if deep else 420))) for c, d in entry.open_jobs(SEED, deep)] if os.environ.get("WX_FILES") else []
    res = tv.run(jobs + [("item", (it, SEED * 1000 + i, 4 if deep else 2, deep or i % 3 == 0)) for i, it in enumerate(its)], entry.any_task)
    errors = gather(rep, res, "for each definition: is there a message on which the circuits from two entry points (structure, file, command line, genCircom, genFromDecomposed; raw: library, command line, genFromRaw) differ, or the circuits with and without substring generation differ other than in the reveal outputs; is there a template name for which the JavaScript entry points emit anything but the same text under that name?",
                    f"{len(its)} definitions, each also as a raw regex with random transitions; every byte message of the shortest match's length + {4 if deep else 2}; template names of up to {entry.NAME} ASCII characters, every character open")
    rep.cov["circuits_with_identical_text"] = sum(r.info.get("identical", 0) for r in res)
    rep.cov["circuits_through_JavaScript_with_a_fixed_name"] = plain = sum(r.info.get("fixed_names", 0) for r in res)
    if plain > len(its) // 2:
        errors.append(f"{plain} circuits from the JavaScript entry points could not be examined with an open name")
    rep.cov["automata_of_genRegexAndDfa_against_the_regex"] = sum(r.info.get("automata", 0) for r in res)
    rep.cov["open_definitions"] = len(jobs)
    rep.cov["open_definitions_paths_where_all_ways_agree"] = sum(r.info.get("open_agree", 0) for r in res)
    rep.cov["open_definitions_unfinished"] = sum(1 for r in res if r.name in ("fileways", "filerawways") and r.skipped)
    rep.cov["texts_differ_circuits_agree"] = sum(r.info.get("texts_differ_circuits_agree", 0) for r in res)
    rep.cov["tables_compared"] = sum(r.info.get("same_tables", 0) for r in res)
    rep.assumptions = ASSUME_WX + ASSUME_CIRC
    return rep, errors
