"""Writes known_findings.json: defects of the pinned tree, repaired ("fixed") or not ("known")."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []


def fixed(prop, commit, what):
    F.append({"property": prop, "status": "fixed", "commit": commit, "what": "fixed: property=%s %s %s" % (prop, commit, what)})


fixed("C02", "e70cbf4", "a rule consuming the final whitespace checked its following context one token early, and match_at consumed that token twice")
fixed("C03", "0cabe6e", "match_at returned the first rule reached, not a least costly one, when a costlier rule lay on an earlier branch")
fixed("C08", "8f62155", "pairs of equally costly rules after one that does not intersect were not checked for ambiguity")
fixed("C08", "6c274ae", "an equally costly third rule was taken to resolve an ambiguity")
fixed("C08", "4924200", "rules not in order of cost were grouped wrongly when checking ambiguity")
fixed("C08", "4815d3d", "an ambiguity at the start or end of the input was taken to be resolved by a rule reaching beyond it")
fixed("C13", "f8d4653", "from_dict raised TypeError for settings without the optional onmatch_rules")
fixed("C17", "30550b1", "pruned_of(str) removed rules whose production is a substring of the given one")
fixed("C09", "aab4592", "dumps of transliterators without metadata could not be loaded")
fixed("C11", "96b40d0", "load ignored its options ignore_errors and check_ambiguity")
fixed("C09", "55fc70f", "compressed dumps lost ignore_errors")
fixed("C11", "ffca1e2", "versions were compared as strings: 1.10.0 was taken to be earlier than 1.9.0")
fixed("C20", "7032cc8", "\\N{...} with digits or hyphens in the name was not unescaped")
fixed("C01", "b4549dc", "a consolidated whitespace run became its first token, not the default whitespace token")
fixed("C18", "596dc45", "transliterate -nie turned ignoring errors on")
fixed("C22", "ee27cc5", "generated tests of on-match rules used only their preceding classes")
fixed("C12", "d553123", "parts of easy-reading rules were silently dropped")
fixed("C12", "b5c5493", "following classes of easy-reading on-match rules containing whitespace were silently dropped")
fixed("C13", "0bb49d7", "empty tokens were accepted (transliteration then never ended); incomplete on-match rules raised IndexError or KeyError")
fixed("C13", "ae3cd17", "an easy-reading on-match item with several keys raised ValueError, not ValidationError")
fixed("C16", "5d3be75", "dumping or iterating over a coverage-tracking transliterator marked everything as covered")
fixed("C16", "1158bc5", "transliterators made from a coverage-tracking one shared its visit log")
fixed("C10", "4780469", "compressed dumps depended on set order, so on hash randomization")
fixed("C15", "276b1c1", "an edge added twice was listed twice")
fixed("C19", "4105463", "iter_transliterators ignored its options")
fixed("C09", "260e5b1", "a transliterator without rules lost its graph when dumped compressed")
fixed("C12", "b515c66", "YAML files were read in the encoding of the locale, not as UTF-8")
fixed("C18", "b515c66", "JSON and YAML files were read in the encoding of the locale, not as UTF-8")
fixed("C19", "b515c66", "stored tests were read in the encoding of the locale, not as UTF-8")
fixed("C25", "50400b6", "classes that are no transliterators, such as imported ones, were registered as bundled transliterators")
fixed("C29", "f66c9f6", "make-json NAME took the name for a regular expression, so the JSON of others whose names start alike was rewritten, too")
fixed("C29", "63ec384", "make-json emptied the JSON file of a transliterator that cannot be dumped, such as one with a date in its metadata")
fixed("C32", "9b6e651", "a warning of ambiguity went to the root logger, which set up logging for the whole process")
fixed("C31", "b8d1438", "time exploded with the number of classes in the parentheses of a malformed rule key")
fixed("C33", "20a797e", "a list of graphs could not be dumped; dumping a graph replaced its edge list")
fixed("C26", "3f1e466", "a version of the wrong type in loaded data raised TypeError, not the validation error")
fixed("C34", "a5a2e16", "a node read by an index from the end was reported missed; reading several at once raised TypeError")
fixed("C34", "1f8e624", "making a tracker of a tracker marked the edges of the first as read")
fixed("C22", "d50e624", "a generated test with a next-line character read back as a space")

SENT = {
    "settings": {
        "tokens": {"a": [], "__rules__": [], " ": ["wb"]},
        "rules": [{"production": "X", "tokens": ["a", "__rules__"]}, {"production": "a", "tokens": ["a"]}],
        "whitespace": {"default": " ", "token_class": "wb", "consolidate": False},
    },
    "tokens": [[" ", "a", "a", " "]],
}
for prop in ("C02", "C03"):
    F.append(
        {
            "property": prop,
            "status": "known",
            "what": "a token literally named __rules__ collides with the key under which a graph "
            "node lists its rules: the rule 'a __rules__' and the rule 'a' are confused",
            "case": SENT,
        }
    )
with open(os.path.join(ROOT, "known_findings.json"), "w") as fh:
    json.dump(F, fh, indent=1)
    fh.write("\n")
