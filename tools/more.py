WX = "The wasm build of the real code is executed symbolically (crates/wsym); for each job the solver decides over every text of the job's domain. Outside: other regexes and texts than the stated domains, lone surrogates, floating point. "
TECH.update({
    "C11": "symbolic execution of the compiled library (wasm) + SAT (z3) against a symbolic leftmost-first matcher",
    "C12": "symbolic execution of the compiled library (wasm) and of the emitted circom over the same text + SAT (z3)",
    "C13": "symbolic execution of the compiled library (wasm) + SAT (z3) against the definitions",
    "C14": "symbolic execution of the compiled library (wasm) + SAT (z3)",
    "C15": "symbolic execution of the compiled library (wasm) over texts with open bytes, SAT (z3) for inputs that trap",
    "C17": "SAT (z3) miters of the circuits emitted by each entry point; symbolic execution (wasm) over template names and over definitions with open bytes through two entry points at once",
})
LEVELS.update({"C11": "model_checking", "C12": "model_checking", "C13": "model_checking", "C14": "model_checking", "C15": "model_checking"})
NOTES.update({
    "C11": WX + "Trusted: crates/wsym, lib/prio.py's reading of regexes, z3. Counterexamples are replayed natively or under node.",
    "C12": WX + "The circuit is the text the native compiler emits, with the honest witness, over the same bytes and one zero. Trusted: crates/wsym, lib/circom.py, lib/rref.py, z3.",
    "C13": WX + "Texts: header lines and near misses with every run of neighbouring bytes open in turn, and all short texts. Trusted: crates/wsym, lib/prio.py, z3.",
    "C14": WX + "All texts up to 16 bytes at all sizes up to 255, longer ones with some bytes open at chosen sizes. Trusted: crates/wsym, z3.",
    "C15": WX + "Templates with one or two open bytes, not all malformed inputs; definition and transition files are read through crates/memfs (an in-memory file system under the compiled sources); the command line parser, 64-bit-only behaviour and exhaustion of time or memory are outside. Counterexamples are replayed natively or under node.",
    "C17": "For each definition of the corpus the solver decides over all messages of the stated length; circuits with identical text need no query. Template names up to 8 ASCII characters are symbolic. Definitions with open bytes go through file or structure and JavaScript in one symbolic run. The command line is concrete. Trusted: lib/circom.py, lib/rref.py, crates/wsym, z3.",
})
