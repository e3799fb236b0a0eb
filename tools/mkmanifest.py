"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "Sampled, not exhaustive: holds on every generated case of the run (counts and samples in the evidence file), shrunk replayable case otherwise. Trusts Hypothesis, the worker protocol and "
T = {
    "C01": ("reference tokenizer (longest match by string comparison, whitespace runs)", "the reference tokenizer in pbt/model.py."),
    "C02": ("reference matcher queried at every position", "the reference matcher in pbt/model.py."),
    "C03": ("reference matcher and specificity count queried at every position", "the reference matcher and the count of required tokens."),
    "C04": ("invariant over the reported tokens, rules and output (tiling)", "the reference tokenizer and matcher."),
    "C05": ("differential against on-match lookup by definition", "the reference on-match lookup."),
    "C06": ("reference model of errors, skips and warnings", "the reference model; a case that uses 60 CPU seconds counts as not terminating."),
    "C07": ("model-based operation histories compared with fresh instances", "that a freshly built instance in the same process is the reference (its results are decided by C01-C06)."),
    "C08": ("ambiguity decided from settings by enumerating token combinations", "the bounded enumeration oracle; cases too large for it are not generated."),
    "C09": ("round trip at every level and format, with inputs", "equality of published state and behaviour as the meaning of 'loses nothing'."),
    "C10": ("metamorphic: repeated, re-loaded and cross-process dumps", "CPython with varied PYTHONHASHSEED as the source of hash randomization (PyPy sets are ordered)."),
    "C11": ("metamorphic: options, omitted fields, versions", "numeric comparison of dotted versions as the order."),
    "C12": ("round trip through an independent easy-reading/YAML writer; damaged notation", "the notation writer in pbt/notation.py."),
    "C13": ("single injected defects in valid settings", "the list of defects in pbt/props/c13.py."),
    "C14": ("invariants of the published graph against the rules", "the invariants as stated."),
    "C15": ("stateful model-based test of DirectedGraph", "the dict-and-list model of a graph."),
    "C16": ("stateful: upper and lower bounds of coverage from a model", "coverage as named in the check messages; between the bounds nothing is decided."),
    "C17": ("differential against building without the pruned rules", "from_dict of the remaining rules as reference."),
    "C18": ("differential: command line against library calls", "the library in the same process; most commands run through click's runner, some in a process of their own."),
    "C19": ("differential: YAML, JSON and coverage loadings of bundled transliterators", "nothing about the contents of the bundled data except its stored tests."),
    "C20": ("metamorphic: escaped and literal text mean the same", "CPython's unicodedata for names valid in both interpreters."),
    "C21": ("metamorphic: permutation, renaming, irrelevant additions", "the reference model for telling apart inputs with ties."),
    "C22": ("generated tests checked against transliteration and rule layouts", "consecutive occurrence as stated."),
    "C23": ("published state against a model of the configuration", "the derivations in pbt/props/c23.py and the reference tokenizer."),
    "C24": ("generated schedules of threads, compared with calls made alone", "switching between lines of library code only (a deterministic scheduler)."),
    "C26": ("fault injection: single defects of shape in serialized data", "the list of defects in pbt/props/c26.py; compressed data is not damaged."),
    "C27": ("hostile YAML by grammar, with functions and modules that record being used", "that what is run would be among what the documents name."),
    "C28": ("differential against an independent table and composition rule, all pairs of codes", "the table of codes in pbt/props/c28.py."),
    "C29": ("model-based: files before and after commands on generated packages", "the model of selection; files outside the package and scratch directories are not looked at."),
    "C30": ("metamorphic: the same script in four processes with other hash seeds", "CPython with varied PYTHONHASHSEED as the source of other set orders; floats compared to nine digits."),
    "C31": ("repeated parts (pumping) and wide contexts under a bound of CPU time", "a bound of 10 CPU seconds where the tree needs less than one, as the meaning of reasonable time."),
    "C32": ("snapshot of the process before and after generated call sequences", "the list of parts of the process in pbt/world.py."),
    "C33": ("round trip through each public schema, alone and with many; single defects", "equality of plain data; empty values of graph nodes count as absent."),
    "C34": ("model-based histories of reads over two trackers of a generated graph", "the set model of what was read; nothing is added to a tracked graph."),
    "C35": ("generated collections of right and wrong tests, run in every way", "right outputs are those of the transliterator itself, judged by C01-C06."),
    "C25": ("model-based: registry after additions of generated packages", "the list model of the registry."),
}
checks = []
for pid, (how, trust) in sorted(T.items()):
    checks.append(
        {
            "property": pid,
            "quick_cmd": "python3-vt run.py %s --tier quick" % pid,
            "thorough_cmd": "python3-vt run.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "property-based testing (Hypothesis): " + how,
            "level": "exploration",
            "level_note": BASE + trust,
        }
    )
m = {
    "version": 1,
    "setup_cmd": "python3-vt tools/setup.py",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo. Interpreted code: workers import /repo's working tree afresh on every run, without bytecode caches.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
