"""Writes MANIFEST.json from the table below (properties without a check go under not_applicable)."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of rustc MIR"
PARSE = AI + " (linear relations, text positions, grammar automaton and operand counts as ghost state), fixpoint over parser states between tokens"
CHECKS = {
    "C01": ("proof", PARSE,
            "Every text: Expression::parse is interpreted on an unknown token sequence of an unknown text; the states between tokens are joined until they are stable and every return is compared with the reference grammar - no path reaches a panic, an overflow or a loop that stands still; each token consumes text and every other loop consumes a finite iterator or stack. Trusts the models of std and smallvec functions, rustc's MIR, and the lexer's own check for what tokens mean."),
    "C02": ("proof", PARSE,
            "Every text: Expression::parse is interpreted on an unknown token sequence of an unknown text; the states between tokens are joined until they are stable and every return is compared with the reference grammar (accepts if and only if). Trusts the models of std and smallvec functions, rustc's MIR, and the lexer's own check for what tokens mean."),
    "C03": ("proof", PARSE,
            "Every text: Expression::parse is interpreted on an unknown token sequence of an unknown text; the states between tokens are joined until they are stable and every return is compared with the reference grammar and its operator/operand sequence with the nesting read from the text. Trusts the models of std and smallvec functions, rustc's MIR, and the lexer's own check for what tokens mean."),
    "C05": ("proof", PARSE,
            "Every text: Expression::parse is interpreted on an unknown token sequence of an unknown text; the states between tokens are joined until they are stable and every return is compared with the reference grammar and the predicate each key and value must denote. Trusts the models of std and smallvec functions, rustc's MIR, and the lexer's own check for what tokens mean."),
    "C06": ("proof", PARSE,
            "Every text: Expression::parse is interpreted on an unknown token sequence of an unknown text; the states between tokens are joined until they are stable and every return is compared with the reference grammar and the text or value each predicate must carry. Trusts the models of std and smallvec functions, rustc's MIR, and the lexer's own check for what tokens mean."),
    "C08": ("proof", PARSE,
            "Every text: Expression::parse is interpreted on an unknown token sequence of an unknown text; the states between tokens are joined until they are stable and every return is compared with the reference grammar and the span and text of each error with the parsed text; the spans of tokens come from the same analysis of the lexer. Trusts the models of std and smallvec functions, rustc's MIR, and the lexer's own check for what tokens mean."),
    "C19": ("proof", PARSE,
            "Every text: Expression::parse is interpreted on an unknown token sequence of an unknown text; the states between tokens are joined until they are stable and every return is compared with the reference grammar and the stored text with the parsed text; original, eq and every Clone impl of an expression's parts are interpreted on symbolic expressions. Trusts the models of std and smallvec functions, rustc's MIR, and the lexer's own check for what tokens mean."),
    "C04": ("proof", AI + " with a node generator: ghost count of outstanding results, symbolic operand ranges, fixpoint over nodes",
            "Every node sequence parse can build (C03), every Logic and callback: eval and predicates() are interpreted on generated nodes with uninterpreted logic operations and callback. Trusts the models of std and smallvec functions and rustc's MIR."),
    "C07": ("proof", AI + " (text positions, character classes, linear arithmetic), fixpoint over lexer states, specification automaton",
            "Every text: the lexer's constructor and next are interpreted on an unknown text until the states between calls are stable, each return is compared with the token specification. Trusts the models of std string functions and rustc's MIR."),
    "C09": ("proof", AI + ": exhaustive evaluation over the finite argument domain",
            "The argument domain is finite and is covered completely."),
    "C10": ("proof", AI + " with symbolic target descriptions and lists of unknown length and content",
            "Every TargetInfo and every predicate value: each path through TargetInfo::matches is compared with the predicate's meaning; families and atomics are lists of any length and order. Trusts the models of std functions and rustc's MIR."),
    "C13": ("proof", AI + " of both matches bodies and of target-lexicon's from_str on the constants rustc evaluated: exhaustive over the finite value domain",
            "Every builtin triple, every predicate value occurring in the builtin list: the domain of the statement is finite and is covered completely (about 28,000 comparisons). Trusts the models of std functions and rustc's MIR."),
    "C14": ("proof", AI + " on a symbolic target_lexicon::Triple and symbolic predicates; every value reader on an unknown text",
            "Every Triple (each field any variant, custom vendors of any text) and every predicate value; what target-lexicon's FromStr impls return is left open and their bodies are interpreted separately on an unknown text. Trusts the models of std functions and rustc's MIR."),
    "C11": ("proof", AI + ": path-sensitive dataflow over the constant list",
            "Every query text: each path through the lookup is compared with the list the compiler evaluated. Trusts the str comparison model."),
    "C12": ("proof", "constant evaluation by rustc compared with a recorded table; name/value rules over every public constant",
            "Every row and constant is compared. The recorded table stands for rustc 1.86.0, which is not available offline; it was cross-checked against the installed rustc."),
    "C15": ("proof", AI + " on an iterator of any length with list tags; constant lists in every order",
            "Every constructor of Families and HasAtomics on an iterator of any length (what it stores is a sorted or membership-preserving list of what it was given), and every order of constant lists up to the sizes the builtin data needs; contains and Deref on any list. Trusts the models of std's sort, collect and iterator functions and rustc's MIR."),
    "C16": ("proof", AI + " on symbolic texts and numbers with a monitored formatter",
            "Every text and every number: constructors, as_str/AsRef, Display and equality of the eight field types, Display and FromStr of HasAtomic, FromStr of Endian. Trusts the models of std functions (in particular integer parsing and printing and the formatter's template encoding) and rustc's MIR."),
    "C20": ("proof", AI + " on a symbolic text, span and reason with a monitored formatter",
            "Every text, every span and every reason: what ParseError's Display writes is compared piece by piece, Reason's Display and description per variant. Lists of expected terms are compared term by term up to three terms, and for panics at any length. Trusts the models of std functions (in particular the formatter's template encoding and that memory suffices) and rustc's MIR."),
    "C21": ("other", AI + " of the tool's main with provenance labels, a failure automaton and both thread orders; fixpoint over targets and cfg lines",
            "Every outcome of every process, file and UTF-8 step, any number of targets and cfg lines, both orders of the two threads (whole threads; finer interleavings touch no shared state). cfg lines are generated around one key at a time, the other keys present once before (all of them, or the mandatory ones only). Other std functions yield any value of their type with the labels of their arguments."),
    "C23": ("proof", AI + " of every eq, cmp, partial_cmp and hash body on two symbolic values",
            "Every pair of values: one value in every representation, and two values that differ. Lists are of any length and opaque: equal or not, before one another or not; where an impl looks at members, lists of up to two members only. Trusts the models of std functions (str and slice comparison and hashing) and rustc's MIR."),
    "C17": ("other", "call-graph effect analysis over MIR, from every function of the library through std",
            "Every function of the library and everything it resolves to is followed; calls into caller-supplied code are the caller's. Effects are classified by std module. Unsafe code, mutable statics and interior mutability are found in the HIR."),
    "C18": ("other", "type-level compile-pass and compile-fail witnesses",
            "rustc's type and borrow checker decides each witness for all programs of its shape; each rejected witness has an accepted twin."),
}
NA = {
    "C22": "running time and memory are runtime quantities that no static argument in reach bounds: the cost of the standard library calls involved is not visible in the MIR shape",
}
PENDING = "not decided by a check yet"


def main():
    props = [json.loads(l)["id"] for l in open(D + "/properties.jsonl")]
    checks = []
    for p in props:
        if p in CHECKS:
            lv, tech, note = CHECKS[p]
            checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                           "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": lv, "level_note": note})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
         "not_applicable": [{"property": p, "reason": NA.get(p, PENDING)} for p in props if p not in CHECKS]}
    with open(D + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
