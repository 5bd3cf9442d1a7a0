#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
B = "Exhaustive within the model's bounds and sampled beyond them; trusts TLC, the observer (which only reports what the public API did) and "
T = {
 "C01": ("TLA+ grammar and parser models, TLC; generated texts replayed, recorded results checked as traces", B + "the independent grammar in CfgGrammar, which TLC shows equal to the parser model on every enumerated text."),
 "C02": ("TLA+ scale model with closed forms, TLC; families of huge texts replayed with limits on time, stack and memory", B + "a 20 s watchdog per input for termination. Scale families grow to the sizes stated in the evidence."),
 "C03": ("TLA+ evaluation semantics, TLC over all assignments; behaviours replayed, recorded evaluations checked as traces", B + "the denotation in CfgEval."),
 "C04": ("TLA+ Kleene and generic logics, TLC; behaviours replayed, recorded evaluations checked as traces", B + "the denotation in CfgEval; user logics are sampled by term-building ones, which record every application."),
 "C05": ("TLA+ enumeration and evaluation order, TLC; callback histories recorded and checked", B + "the leaf order of CfgEval."),
 "C06": ("TLA+ leaf classification, TLC over keys and values; replayed, and recorded leaves checked as traces", B + "the key table in CfgWords."),
 "C07": ("TLA+ parser model with reason and span, TLC; every enumerated rejection replayed, random ones checked as traces", B + "the reading of the property in CfgParser (left-to-right judgement)."),
 "C08": ("TLA+ error rendering, TLC; spans and renderings of every rejection checked", B + "CfgError for the rendering."),
 "C09": ("TLA+ lexer with tiling invariants, TLC; token streams replayed and checked as traces", B + "CfgLexer; all characters of Unicode are tried in place."),
 "C10": ("TLA+ layout model: variants with the same meaning, TLC; replayed in pairs", B + "MC_Layout's notion of a layout variant."),
 "C11": ("TLA+ cfg-set model of a target, TLC over the built-in, made-up and cross-product targets; every answer replayed", B + "CfgTarget for what the compiler sets."),
 "C12": ("trace validation of the library's table and constants against the recorded compiler release in TLA+", "Complete over the finite table. Trusts TLC and the record of release 1.86.0 in data/targets.json (thorough compares it with the installed compiler)."),
 "C13": ("TLA+ lookup as scan and as search, TLC; neighbours of every triple replayed", B + "CfgTarget."),
 "C14": ("TLA+ triple model against the target model, TLC; every answer on both sides replayed", "Complete over the built-in triples and the compiler's values. Trusts TLC, the triple library's parser and the recorded release."),
 "C15": ("TLA+ triple mapping, TLC over triples of the triple library's vocabulary; every answer replayed", B + "the mapping in CfgTriple; the parser of triples is the triple library's."),
 "C16": ("TLA+ value and set models, TLC; constructions replayed", B + "TLC's own sets as the oracle."),
 "C17": ("TLA+ model of the compiler's output, trace validation of the table the real updater generates, compiled in place", B + "a stand-in compiler that prints given listings."),
 "C18": ("TLA+ model of the updater's concurrent workers with faults, TLC; fault and schedule histories replayed, recorded runs checked as traces", B + "stand-ins for the compiler and formatter that log what they see; the order of the two workers is forced by delays."),
 "C19": ("TLA+ model of readme updates, TLC; histories of updates replayed into the real updater", B + "the readme model MC_Readme."),
 "C20": ("TLA+ composition of parser, evaluation and target models, TLC; verdicts for all built-in targets replayed and checked as traces", B + "the recorded release."),
 "C21": ("TLA+ model of histories of calls and the question each asks, TLC (all short ones, long ones simulated); histories replayed on one and several threads in both builds", "Short histories exhaustively over few texts, long ones sampled; thread schedules are those that occur. Trusts TLC and the observer; the first answer to a question is taken in a process of its own."),
 "C22": ("trace validation in TLA+ of how recorded values compare, against the content their descriptions stand for", B + "the descriptions; sampled from near-equal values, all pairs of them."),
}
done = os.environ.get("CLAIM", " ".join(T)).split()
m = dict(version=1, setup_cmd="python3 tools/setup.py",
 checks=[dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --tier thorough",
              evidence_file=f"evidence/{p}.json", technique=t, level="model_checking", level_note=n) for p, (t, n) in T.items() if p in done],
 not_applicable=[dict(property=p, reason="its check is still being built") for p in T if p not in done],
 notes="No hooks: everything is observed through the public API and, for the updater, through the files and programs it touches. Known and fixed findings are in known-findings.txt.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
