#!/usr/bin/env python3
"""Writes MANIFEST.json and the `fixed` list of KNOWN_FINDINGS.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTES = {
    "C01": ("property-based testing: satisfiable schema specs x controlled random draws, oracle validate + reference model",
            "Every outcome of the draws is a tape choice (all-minimal, all-maximal, mixed); schemas with an unsatisfiable part that generation may pick are the listed known findings."),
    "C02": ("property-based testing: differential against an independent reference model of the declared constraints",
            "Values are conforming by construction, boundary, perturbed at any depth and unrelated; a narrow band round the documented float tolerance is left open."),
    "C03": ("property-based testing: every reported error is re-evaluated against the value and the declared spec",
            "Path resolution, truth of the fact, existence of the constraint and message are judged by code independent of d42."),
    "C04": ("property-based testing: pinning relation between the value and what the substituted schema generates and accepts",
            "Plain values only, as the property says; results are checked by validation, by the reference model and by controlled generation."),
    "C05": ("property-based testing: metamorphic inclusion accepts(S % v) in accepts(S) over generated third values",
            "Inclusion is judged by validate and by the reference model, including next to the float tolerance."),
    "C06": ("property-based testing: eval(repr(schema)) round trip against the declared spec",
            "Structural comparison with the spec that was declared, independent of d42's own equality."),
    "C07": ("stateful property-based testing: operation histories over a pool of schemas with snapshots",
            "Snapshots of structure, text, verdicts and seeded output after every operation and after mutation of caller-owned containers."),
    "C08": ("property-based testing / fuzzing with a hostile value zoo injected at any position",
            "The zoo covers standard Python data; objects whose own dunder methods raise on purpose are outside the property."),
    "C09": ("grammar-based fuzzing of regular expressions, oracle re.fullmatch",
            "Pattern programs render to pattern text; the language is sampled by an independent sampler as well."),
    "C10": ("bounded-exhaustive and random call-chain testing of the declaration DSL",
            "All pairs (and triples) of calls over a boundary argument zoo, plus random chains."),
    "C11": ("exhaustive permutation testing of refinement sets plus random parameters",
            "All orders of every refinement set over a small parameter grid, random parameters beyond it."),
    "C12": ("property-based testing / fuzzing of substitution with hostile, partial and placeholder values",
            "Cyclic and thousands-deep values are left out (interpreter stack)."),
    "C13": ("property-based testing against a model of union, merge, make_required and alias",
            "Verdicts are compared with the operands' verdicts and with the reference model."),
    "C14": ("property-based testing: strict structural oracle over plain values and their perturbations",
            "Also refusal of non-plain values at every depth."),
    "C15": ("property-based testing of the equality laws with witness values that separate variants",
            "Rebuilds, single-parameter variants, near-equal triples, schema-against-value comparison."),
    "C16": ("property-based differential testing: tree with forwarding custom types against the same tree without",
            "Errors, paths, text, generated values, substitution, keyword arguments and paths received by every hook."),
    "C17": ("property-based differential testing across interpreters with other hash seeds and settings",
            "Three other interpreters, kept running and fresh, plus repetition in the same process."),
    "C18": ("property-based round-trip testing plus exhaustive enumeration of small nested mappings",
            "All key orders, optional placements of small trees; random larger ones with odd separators."),
    "C19": ("grammar-based fuzzing of Python modules with AST comparison, exhaustive over mapped names",
            "The v1/v2 table is compared with a committed copy by object identity; files and directories run through the CLI in a scratch folder."),
}

FIXED = """
C01 ee192b1 bounds outside the default range (int, float, len) made fake raise or return a rejected value
C01 9ad7cf3 fake(schema.str.alphabet("")) raised
C01 98aafe6 fake of a list with `...` did not satisfy its declared len
C01 2f20007 random floats left the declared range (rounding, overflow)
C09 64f4fa1 a repeat count above the generator's cap of 32 gave a string that does not match
C09 2307446 a negated class that excludes the whole alphabet raised IndexError; C01 too
C17 e9accf4 negated classes gave other strings under another hash seed
C06 a6940da repr of schema.list([]).len(0) lost the empty element list
C07 1f4ebf3 mutating the list passed to schema.list changed the schema
C11 e191714 regex after max_len was accepted, max_len after regex rejected
C10 673c43f schema.str.regex of a pattern that does not compile raised re.error
C10 0a82b78 schema.uuid4 accepted a fixed UUID of another version, which it then rejects
C08 6b1a1c2 validation of inf, nan and huge floats against fixed floats raised; C02 and C14 too
C02 0704cd0 nan was accepted within declared bounds; C10 too
C15 ced305f comparing schemas compared member schemas with plain values, and NaN made equal schemas unequal
C03 8f86048 alphabet errors reported another path
C03 4e07c6e paths deep-copied dict keys: raised or reported another key; C08 too
C08 23fe60e errors about values whose repr is refused (huge ints) did not render
C10 759ef6d declaring or printing huge ints raised ValueError; C06 too
C06 6713194 repr of non-finite floats was not an expression
C10 58f3241 messages about huge ints in dict declarations and substitution raised ValueError; C12 too
C10 eb2e166 alias of a non-schema raised something other than DeclarationError
C12 c1ae08a any without a surviving alternative returned a schema that accepts nothing
C12 715fe3a a contains list without a window returned an unusable schema
C12 d4a363d `...` in the middle of a list value returned a schema that no operation can use
C12 fa741f2 `...` for an undeclared dict key returned an unusable schema
C05 f6e9787 substituting a float close to a fixed one moved the fixed value, widening the schema
C14 a6254ea from_native accepted dicts with `...` or optional keys; C12 too
C19 6840924 rewriting dropped statements sharing a line, reformatted unmapped imports
C19 7b00e9c files with a declared encoding or a BOM were damaged or skipped
C19 f519a36 a migrated file that cannot be encoded was truncated
C04 b0e11bb substitution into a contains list used another window than the one the value matches
C04 afe30db substitution returned a schema that rejects the conforming value (any, contains)
"""


def main():
    checks = []
    for prop in sorted(NOTES):
        technique, note = NOTES[prop]
        checks.append({
            "property": prop,
            "quick_cmd": f"./check.py {prop} --tier quick",
            "thorough_cmd": f"./check.py {prop} --tier thorough",
            "technique": technique,
            "level": "exploration",
            "level_note": note + " No proof: held on everything generated."})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "chmod +x check.py && mkdir -p evidence replays",
                   "checks": checks, "not_applicable": []}, f, indent=1)
        f.write("\n")
    path = os.path.join(HERE, "KNOWN_FINDINGS.json")
    data = json.load(open(path))
    data["fixed"] = [f"fixed: property={line.split()[0]} {line.split(' ', 1)[1]}"
                     for line in FIXED.strip().splitlines()]
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
