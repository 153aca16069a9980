#!/usr/bin/env python3
"""writes ../MANIFEST.json (the list of checks lives here)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ trace validation with TLC: "
T = {
 "C01": ("recorded word spans judged against Text.tla", "sampled texts and all short texts over a small alphabet"),
 "C02": ("recorded words judged against the morphology of Morphology.tla (a PEG machine in TLA+)", "sampled stretches, all short ones, all consonant pairs in 17 frames"),
 "C03": ("recorded words of texts and of their stretches alone judged against Text.tla", "sampled compositions"),
 "C04": ("recorded words of two spellings judged against Text.tla's normal form", "sampled spellings; every single comma in sampled words"),
 "C05": ("recorded request histories replayed step by step in the machine of Decomposer.tla; the machine is model-checked (MCDecomposer), and TLC's exhaustive short histories are replayed into the code", "sampled long histories, all short ones on selected texts"),
 "C06": ("recorded items replayed step by step in the machine of Lexer.tla", "sampled texts and all short texts over a vocabulary"),
 "C07": ("recorded items replayed step by step in the machine of Lexer.tla", "sampled quotations and all short texts over a vocabulary"),
 "C08": ("recorded items replayed step by step in the machine of Lexer.tla", "sampled quotations and all short texts over a vocabulary"),
 "C09": ("recorded items replayed step by step in the machine of Lexer.tla", "sampled texts and their beginnings and all short texts over a vocabulary"),
 "C10": ("recorded classes judged against Words.tla (lexicon and morphology)", "the whole lexicon in several spellings and near misses, sampled words of every form"),
 "C11": ("recorded trees judged against Tree.tla", "sampled accepted token sequences"),
 "C12": ("recorded trees judged against Tree.tla", "sampled accepted token sequences with marks"),
 "C13": ("recorded acceptance judged against the PEG semantics of Grammar.tla", "grammar-directed samples, mutants, all sequences of up to two words"),
 "C14": ("recorded trees judged against the derivations of Grammar.tla", "grammar-directed samples"),
 "C15": ("recorded error locations judged against the error semantics of Parser.tla", "mutants and beginnings of grammatical texts, all sequences of up to two words"),
 "C16": ("recorded parses of magic-word constructs judged against Grammar.tla", "every class of word in every frame, all short sequences of magic words, samples"),
 "C17": ("every request must be answered, with an answer of the specified type; termination of the specified machines is model-checked", "sampled inputs of every kind, runs, self-repeating words; a time limit of 20 s stands for non-termination"),
 "C18": ("recorded results judged against the set definitions of Span.tla, which MCSpan model-checks", "all pairs of positions up to 8, sampled large ones, sampled texts"),
 "C19": ("recorded sessions replayed step by step in the machine of Sessions.tla", "sampled interleavings; threads as the scheduler runs them"),
}
checks = [{"property": p, "quick_cmd": f"python3 bin/check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {p}",
           "technique": TV + t, "level": "model_checking",
           "level_note": "bounded conformance of the implementation with the TLA+ specification: " + n} for p, (t, n) in T.items()]
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": []}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
