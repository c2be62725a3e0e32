"""Writes DESIGN.md: the prose below, with bounds and assumptions from the harnesses and the table of planted bugs."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, "/repo"]
sys.path.append("/opt/venv/lib/python3.12/site-packages")

HEAD = """# Solver-based checking of gopher-render

(Written by tools/mkdesign.py from the text in it, properties.jsonl, the harnesses and seeded/*/meta.json.)

## 1. Approach

gopher-render is a pure Python package: HTML in, wrapped text or a gophermap out. All of its guarantees are
about what text comes out for which document and configuration, so the solver has to reason about Python
code that works on strings. None of the installed tools does that exhaustively (CrossHair samples paths under a
time budget, models `re` and `str` partly, and does not say when it is complete), so `sx/` is a symbolic executor for
Python written for this task:

* **Loader** (`sx/loader.py`). On every run the modules of /repo/gopher_render *and* the pure Python standard library
  modules they depend on (`html.parser`, `_markupbase`, `html`, `textwrap`, `urllib.parse`, `posixpath`, `ntpath`, `string`)
  are read from their current source and compiled after a rewriting of the syntax tree that routes calls, `in`, `%`,
  f-strings, subscripts, comparisons and boolean tests through functions that understand symbolic values. Nothing of the package is
  modelled by hand: there is no second description of it that could go stale. The rewriting changes no control flow.
* **Values** (`sx/values.py`). Strings are sequences of characters, each of which is a linear integer term over symbolic
  code points with a domain (any set of ranges of code points; "any Unicode scalar value" included); their length is concrete
  on a path (lengths are symbolic by a choice that forks). Integers and booleans are terms; integers may be unbounded (margins, widths,
  specificities, list starts in the tasks that say so). `str` methods, slicing, comparison, hashing into dictionaries,
  case mapping, formatting and number parsing are defined on them.
* **Regular expressions** (`sx/symre.py`). The patterns of the package and of the standard library are parsed with `sre_parse` and
  matched by a backtracking matcher whose steps branch on symbolic characters; the order of alternatives and the greediness
  are those of `re`.
* **Explorer** (`sx/core.py`). A path is one run of the harness; at every branch on a symbolic condition z3 (4.x, linear
  integer arithmetic, sliced to the variables connected with the condition) decides which sides are feasible under the path condition, and both feasible ones
  are explored, depth first, by re-execution, over 8 processes. Every assertion is the query *path condition and not
  assertion*: unsat on every path is the verdict "holds for every value within the bounds"; sat gives concrete values.
* **Harnesses** (`harness/Cxx.py`). Ordinary Python that declares symbolic inputs, runs the public interface
  (`GopherHTMLParser.feed/close/parsed`, renderer classes, `gopher_render.rendering`, `left_justify` and so on, `namedict`,
  `cli.main`) and states assertions against an oracle that is independent of the code (a formula, a few lines of
  reference code, a second conversion, the standard library, or the CSS and ANSI standards). The same function runs symbolically and concretely.
* **Counterexamples** are replayed on the untouched package with the ordinary interpreter (`replay.py`,
  /opt/venv/bin/python); only what fails there is reported (`VIOLATION property=.. replay=..`, exit 1). One that does
  not reproduce is an error of the encoding (exit 2), never a violation. Replay files are in /verif/replays (ignored by git).
* **Validation of the encoding.** For a random share of the paths (and the first ones of every work unit) a model of the path condition is run on
  the ordinary interpreter, which must go through the same assertions and give the same observed outputs as the symbolic run evaluated
  under the model. The evidence counts these (`traces_validated_against_impl`) and the mismatches (0).
* **Non-vacuity.** A task that explores no path fails; harnesses name labels that have to be reached (`WITNESS`).
* **Ends.** An exception that is not expected, `SystemExit`, and a path that does not come to an end (25 s of CPU time; 15 s
  natively in the replay) are violations: a conversion has to complete.
* **What a run reports** (evidence/Cxx.json): paths, two-sided decisions, assertions, solver queries, cache hits and
  seconds, the functions of the package that were executed symbolically, the bounds, whether the
  exploration was exhaustive within them, and per-task figures. A path that leaves what the engine supports
  (`Unsupported`), or on which z3 gives no answer, is counted as inconclusive and makes the run say "not exhaustive"; on the unchanged tree there are none.

Trust base: the engine itself (defended by the validation runs and by replay), z3, CPython and its `re`/`str` for the concrete
parts, and the third-party library `cssselect`, which runs natively on concrete values (selectors are concrete in every task; setting
values and attribute values are symbolic). `markdown` and `pygments` are not installed here: C28 puts stand-ins in their place. Bounds are stated per
property below; beyond them (longer texts, deeper nesting, more siblings) nothing is claimed. Fuzzing, enumeration of concrete runs and proofs are not used.

Concreteness: where code cannot be followed with a symbolic value (a call into C code with a symbolic string), the value is
enumerated over its domain *by forking*, never sampled; if that is impossible the path is inconclusive.

### Cost

Quick: every check within two minutes on 8 cores (most within one). Thorough: the same tasks with deeper bounds, see section 2; every
thorough command stops exploring at 800 s and says so if it was not exhaustive.

### Not covered

* `__main__.py` (three lines that call `cli.main`), and the tool's second positional argument (a destination file), which the code
  accepts and has never written to; nothing documents that it does.
* Terminal capabilities, the looks of the themes beyond their entries being valid and applied (C25), and the exact Markdown dialect (third party).
* Text directly after a block without margins: such a block does not end its line (upstream's design), so the text stands right of the block's padding.
* Control characters and the line separators U+0085, U+2028, U+2029 in texts (except where C19, C24 say so): the layout code
  splits lines at them by way of `str.splitlines`, which upstream may well want.
"""

METHOD = {
"C01": "Documents of listed shapes with symbolic texts go through the whole converter. Oracle: the sequence of visible characters of the texts, with the markers that the shape's elements add; compared after removing white space. Symbolic characters are any code point, so braces, percent signs, backslashes are covered by the solver, not by a list. Also documents with elements that are never closed.",
"C02": "Same, with the width symbolic by choice and texts as words of symbolic length; the assertion is `len(line) <= width` for every line, as a formula over the path.",
"C03": "The wrapping functions are run directly through their public entry (`left_justify`) on texts of words of symbolic lengths and on arbitrary characters; oracle: a greedy reference in ten lines for plain words, and order, width and break places otherwise.",
"C04": "Justification functions and the settings that choose them; oracle: the arithmetic of gaps (quotient and remainder) over the words of each line.",
"C05": "Words with escape sequences at symbolic positions with symbolic parameters; oracle: the same call without them (a relational check: both runs are on one path), plus the sequences themselves in order. Whole documents the same way.",
"C06": "`Box` chains with unbounded symbolic integers: the width equations are linear and are proved by z3 for all values (the nearest this gets to no bound). Rendered nested boxes are checked for a rectangular outline.",
"C07": "Blocks with margins and paddings chosen symbolically; oracle: the lines composed by hand from the block texts. Default blocks of 9 kinds in any order and any white space between tags.",
"C08": "Oracle: the same content converted on its own at the remaining width, then prefixed line by line.",
"C09": "List start and step are symbolic integers, the items' texts are words of symbolic length; oracle: the label's decimal digits and the hanging indent computed from its length. Things between items are symbolic choices.",
"C10": "Levels, settings and characters symbolic; oracle: composition of the header line by hand.",
"C11": "Trees of symbolic element kinds; oracle: recursive concatenation of markers and text.",
"C12": "Texts over {letter, blank characters} and arbitrary ones; oracle: a collapsing reference of one line, and separation of neighbouring words around tags.",
"C13": "Oracle: the source's lines after the template, right-stripped.",
"C14": "Elements' tags, classes, ids and attributes are symbolic, the selectors concrete (chosen symbolically from a grammar); oracle: an evaluator of the CSS definitions over plain tuples. The an+b arithmetic is covered for all listed a, b and every position.",
"C15": "Rules' forms, order and values symbolic; oracle: sort by (specificity, order) and take the last. Comparison of specificities of unbounded integers by z3.",
"C16": "Class hierarchies with symbolic subsets of settings; oracle: the MRO union. Leaks: a document is converted before and after symbolic sequences of other conversions and must come out the same.",
"C17": "Documents with symbolic places (link, image, text, nested); oracle: the numbering in document order, and the same document with references written out as text for the body.",
"C18": "Texts, titles and targets symbolic; oracle: composition by hand, with the cut computed from the configured length.",
"C19": "Arbitrary characters in every field; oracle: fields by hand and the count of tabs and line breaks.",
"C20": "Targets of symbolic characters go through the real `urllib.parse` (instrumented too); oracle: an independent reading of the URL by hand.",
"C21": "Sequences of symbolic tokens and raw markup; oracle: conversion completes, text intact, and where the structure is defined the same output as well-formed markup.",
"C22": "Every cut position of symbolic documents (forked), compared with the whole document on the same path.",
"C23": "Histories of documents, closes and resets as symbolic choices, then a document compared with a fresh parser's result; interleavings of two parsers as a symbolic schedule.",
"C24": "Two conversions on the same path (optimised and not), compared line by line.",
"C25": "Effects as 13 symbolic booleans, colours as symbolic integers or digits; oracle: an interpreter of ANSI codes written from the standard, which computes the state before, within and after the text.",
"C26": "Every combination, hosts of arbitrary characters; oracle: the two conditions of the statement.",
"C27": "Symbolic sequences of operations; oracle: a plain dictionary.",
"C28": "`cli.main` with stand-ins for files, standard output and the Markdown library; source text symbolic. Oracle: the library called with the documented configuration. Argument parsing is the real one.",
"C29": "Each setting symbolic; oracle: composition by the public wrapping functions, which C03, C04 and C31 decide.",
"C30": "Relational: the document with and without the element, on one path.",
"C31": "Differential: the standard library's textwrap is executed symbolically on the same path with the same options.",
"C32": "Relational: the same symbolic document in two configurations, on one path; the lists are told by their form (menu lines have three tabs).",
"C33": "Relational: a document written twice, normally and with a symbolic choice of spellings, through the real `html.parser` (instrumented too). The code point of a character reference is symbolic: its digits are symbolic characters and `chr(int(digits))` is a term.",
"C34": "Relational: the document and its parts converted alone, on one path.",
"C35": "Relational: a document with settings in the rule and given in a symbolic choice of other ways, on one path; every listed setting is shown to have an effect.",
}

TAIL = """
## 3. Defects found in khoulihan/gopher-render

All but one were small and are repaired by `fix:` commits in /repo (listed in known_findings.json as `fixed:`, which suppress nothing).

Recorded, not repaired (C13): preformatted text in a list item or definition gets a second space after a sentence end, `<li>k<pre>a. b</pre></li>`
shows `a.  b`: the item wraps the lines of its nested blocks again, and by then nothing tells them from its own text. A repair means
rendering the item's own text and its blocks apart, a redesign of that renderer. The check prints it as KNOWN-FINDING.

Repaired; what failed:

%(fixes)s

## 4. False alarms and corrections of the checks

* C31: the standard library emits an empty line where a separator is the last thing on a line without room; blank lines are left out of the comparison (stated).
* C30: a first version compared links in removed elements, whose entries are collected on purpose; not part of the property. Text at the
  edges of transparent elements with white space at both ends merges differently with neighbouring texts; excluded by an assumption.
* C08: a quote whose last block ends in a line break has no extra prefixed line; C13: pre within list items is re-wrapped (stated in both).
* C02: widths that leave no column for text are outside the property (nothing sensible can be done).
* C04: hyphens and sentence ends excluded, as both add breaks or blanks of their own.
* C03 and C05 once called private functions; they use the public ones now, so that refactorings of the private parts stay quiet.
* A path that runs long because the machine is loaded is not a hang: CPU time of the process is measured, and the native replay must take more than 15 s too.

## 5. Planted bugs

Each is a patch that keeps the repository's 48 stable tests passing, with a demonstration, in /verif/seeded/<id>/. "Caught by" is the check of the named
property (quick tier); all are caught.

| id | property (caught by) | what it breaks | needs |
|---|---|---|---|
%(seeds)s

## 6. Mutation triage

To look for gaps beyond hand-written bugs, all single-token mutants of the package's source (operators, constants, conditions, statements
dropped; about 2,000 of them) that its test suite does not kill were run against all checks with reduced budgets, and the survivors
were read. They are equivalent (attribute initialisations that are overwritten, error message texts, `None` for
`False`, alternatives never chosen), outside the claims (control characters), or led to strengthened harnesses:
C11 `fenced`, C12 `mixed`, `breaks`, C15 `orders`, C18 `configured_image`, `default_capitals`, C19 `boxed` with exact margins, C20, C29 any number of breaks.

## 7. Layout

`check.py Cxx --tier quick|thorough` is the command of every check; `sx/` the engine; `harness/` the properties; `replay.py FILE` replays a
counterexample; `tools/` writes properties.jsonl, MANIFEST.json and this file. `harness/T00.py` is a self-test of the engine (`check.py T00`).
No hooks in /repo are needed. Nothing is listed under not_applicable.
"""


def wrap(t):
    return t


def main():
    out = [HEAD, "\n## 2. Properties\n"]
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(line)
        m = importlib.import_module("harness." + p["id"])
        b = getattr(m, "BOUNDS", "")
        out.append("### %s %s\n\n%s\n\n*Decided by:* %s\n" % (p["id"], p["title"], p["statement"].strip(), METHOD[p["id"]]))
        if isinstance(b, dict):
            out.append("*Bounds, quick:* %s. *Thorough:* %s.\n" % (b["quick"], b["thorough"]))
        else:
            out.append("*Bounds:* %s.\n" % b)
        a = getattr(m, "ASSUMPTIONS", [])
        if a:
            out.append("*Outside / assumed:* %s.\n" % "; ".join(a))
        out.append("*Why tests do not reach it:* %s\n" % p["why_tests_cant"].strip())
    fixes = json.load(open(os.path.join(VERIF, "known_findings.json")))["fixed"]
    fx = "\n".join("* %s" % f[len("fixed: property="):] for f in fixes)
    sd = []
    base = os.path.join(VERIF, "seeded")
    for d in sorted(os.listdir(base)):
        m = json.load(open(os.path.join(base, d, "meta.json")))
        sd.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/") or d, m.get("needs", "").replace("|", "/")))
    out.append(TAIL % dict(fixes=fx, seeds="\n".join(sd)))
    with open(os.path.join(VERIF, "DESIGN.md"), "w") as fh:
        fh.write("\n".join(out).replace("\n\n\n", "\n\n"))


if __name__ == "__main__":
    main()
