"""Rewrites the parts of DESIGN.md that follow from the registry, the planted bugs and not-applicable.jsonl."""
import glob, json, os, re
import registry

HERE = os.path.dirname(os.path.abspath(__file__))

# id: (what is executed and what is asserted of it, against which oracle; why tests cannot)
HOW = {
 "L01": ("`parse` on symbolic text", "it returns a module or an error whose line and column are in the text; every panic, overflow, bounds check and endless path on the way is a violation"),
 "L02": ("`parse` and a recogniser and tree builder written independently (`harness/lang/src/reference.rs`, from doc/ and the grammar)", "both accept or both refuse, and their trees (compared by the bytes of `tree.rs`'s rendering) are equal; operators by a precedence climber of its own"),
 "L03": ("`parse` of a module with and without symbolic blanks and comments between two tokens", "both are accepted with the same tree apart from positions"),
 "L04": ("`parse` of one symbolic token in place", "a character-level reference: keywords, identifiers, decimal/binary/hexadecimal numbers (exact value), strings and escapes (exact bytes)"),
 "L05": ("`parse_comments` on symbolic text", "a scanner of the reference that knows only strings and comments: the same comments, texts, lines and columns"),
 "L06": ("`parse`, `format`, `parse` again", "the second tree is the first one apart from positions and the order of imports; output is accepted"),
 "L07": ("`format` of the output of `format`", "byte equality; modules with comments only where the layout is defined for them"),
 "L08": ("`parse_comments` before and after `format`", "the sequence of comment texts is the same"),
 "L09": ("`doc::generate` on modules and packages", "the sections of a reference that decides publicness by the first letter and the `_` of paths; what is private does not occur"),
 "L10": ("`doc::generate` on arrangements of lines", "a reference that attaches a block of comments to what follows it directly; declarations are shown as written"),
 "L11": ("`position::format_message`", "the caret stands below the column; line numbers, paths and texts are those given"),
 "L12": ("`parse`", "every position in the tree is that of the first character of its token in the text, found by the reference"),
 "F01": ("`Arc`, `ArcBlock`, `ArcBuffer` under sequences of operations", "a ghost count; freed exactly when it reaches none, `get_mut` only when unique; the executor's heap finds leaks (`live`), double frees, uses after free"),
 "F02": ("the same from several threads, every schedule", "the same ghost count, and the executor's data race detection"),
 "F03": ("`ByteString` made from slices, vectors, strings, characters", "the bytes given; equality and order as those of the bytes"),
 "F04": ("`Any` with `#[ffi::any]` types", "conversion to the own type gives the payload, to another fails and leaves the value"),
 "F05": ("`Closure` under clones, casts and drops", "entry pointer and payload bytes, dropped once"),
 "F06": ("`cps::Stack`", "a list of the pushed values, last first"),
 "F07": ("`cps::AsyncStack`", "the state machine of suspend, resume, restore, trampoline written in the harness: refused calls change nothing"),
 "F08": ("`ffi::future::*`, `bindgen`, `import`", "every argument and result arrives once and unchanged with any number of waits between"),
 "F09": ("conversions of numbers, booleans, none, strings, lists, errors, results", "what went in; stand-ins play compiled code (`harness/ffi/src/builtin.rs`)"),
 "K01": ("`Byte'Slice`, views", "slices of Rust written out in the harness; positions are any number"),
 "K02": ("`String'Utf8`", "references over characters of an independent decoder; a text that is no UTF-8 as the documentation says"),
 "K03": ("`String'Join`, the builder", "concatenation"),
 "K04": ("`Number`, `Bit`, `Character`", "integer arithmetic on the bits of the numbers"),
 "K05": ("prelude's equality, hashes and map indices", "equality of bytes; the index of each layer is the bits of the hash it stands for"),
 "K06": ("HTML encoding", "a decoder of the harness gives the text back; no markup character is left"),
 "K07": ("JSON encoding and decoding of numbers, and the core's", "a value computed from the decimal digits, exact; both directions"),
 "K08": ("test states", "the last value set, in every schedule"),
 "O01": ("`file.rs`, `open_file_options.rs`, `utilities.rs` of os-sync and std's file layer below, over stand-ins of the C library that answer with any part, interruption or failure", "the content of the stand-in's file; flags by the rules of open(2)"),
 "O02": ("`directory.rs`, `file.rs`", "the calls the stand-ins recorded, with their paths"),
 "O03": ("`stdio.rs`, `environment_variable.rs`, `time.rs`, `process.rs`, with std's buffers and its flush at exit", "what arrived at and came from the stand-ins"),
 "O04": ("`tcp.rs`, `udp.rs`", "the addresses and bytes the stand-ins recorded; a parser of addresses of its own"),
 "O05": ("the same modules of the package os, with tokio's real locks and helpers, over stand-ins for its files that wait and write behind", "the content of the stand-in's file, after each call"),
 "O06": ("`directory.rs`, `file.rs` of os", "the calls the stand-ins recorded, with their paths"),
 "O07": ("`stdio.rs`, `environment_variable.rs`, `time.rs`, `process.rs` of os", "what arrived at and came from the stand-ins"),
 "O08": ("`tcp.rs`, `udp.rs` of os", "the addresses and bytes the stand-ins recorded; a parser of addresses of its own"),
 "O09": ("`concurrency.rs` of the application of os, with tokio's real channels and the library's futures and streams", "the values given, as any merge of the lists"),
 "W01": ("`client.rs`, `header_map.rs`, `response.rs` of http, with the real crate http, over a stand-in for hyper's connections", "the request the stand-in recorded and the response it gave"),
 "W02": ("`server.rs`, `header_map.rs`, `response.rs` of http, with the library's `call!`", "what the callback got and gave, and what the stand-in sent and got"),
 "W03": ("`pool.rs`, `runtime.rs` of sql and `runtime.rs` of lib/ffi, with the real crate sqlx-core, over a stand-in for its pool", "the text and arguments the stand-in recorded and the rows it gave; a count of entered run times at each poll"),
 "W04": ("`regex/ffi`, over a stand-in for the engine that answers anything", "the pattern, string and groups of the stand-in"),
 "W05": ("`random/ffi`, with the real crate rand's distribution over an arbitrary word", "the word's upper 50 bits"),
 "T01": ("the checkers and calculators of `lib/hir/src/analysis` on types put together from symbolic choices", "sets of members, computed by the harness (`kinds.rs`)"),
 "T02": ("`type_id_calculator`, `type_comparability_checker`", "equality of T01's sets; a walk through all fields that stops at records already seen"),
 "T03": ("the validators of declarations, as `analyze` runs them, and their errors", "fixed points over names: aliases that can be expanded, records that can be made"),
 "T04": ("`infer_types`, `validate`, `coerce_types` of whole functions put together from symbolic choices", "the typing rules written again in `program.rs`; the output is walked along with the input and every value's type compared with what its place asks for"),
 "T05": ("the same, and the output interpreted with arbitrary arguments (`run.rs`)", "no missing variable, field, branch or operation; each value belongs to the type given to it"),
 "N01": ("`ast_hir::compile_prelude` of functions that are a literal, with the real crate regex", "the bytes and digits that the literal was put together from"),
 "N02": ("`ast_hir::compile` of modules put together from symbolic choices, with interfaces of the modules that they import", "the expression expected, written down with a look-up of each name of its own (`names.rs`)"),
}


def properties():
    out = []
    for line in open(f"{HERE}/properties.jsonl"):
        p = json.loads(line)
        if p["id"] not in registry.PROPERTIES:
            continue
        r = registry.PROPERTIES[p["id"]]
        what, oracle = HOW[p["id"]]
        out.append(f"* **{p['id']} {p['title']}.** Executed: {what}. Asserted: {oracle}. "
                   f"Bounds: {r['bounds']}.")
        if r.get("assumptions"):
            out[-1] += " Assumed: " + "; ".join(r["assumptions"]) + "."
    return "\n".join(out)


def seeds():
    out = ["| planted bug | property | what it needs |", "|---|---|---|"]
    for f in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
        m = json.load(open(f))
        out.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} |")
    return "\n".join(out)


def not_applicable():
    return "\n".join(f"* {d['property']}: {d['reason']}." for d in map(json.loads, open(f"{HERE}/not-applicable.jsonl")))


def findings():
    out = []
    for line in open(f"{HERE}/known-findings.jsonl"):
        d = json.loads(line)
        if d["status"] == "open":
            out.append(f"* open, {d['property']}: {d['what']}.")
        else:
            out.append(f"* {d['what']}.")
    return "\n".join(out)


text = open(f"{HERE}/DESIGN.md").read()
for name, make in [("properties", properties), ("seeds", seeds), ("not-applicable", not_applicable), ("findings", findings)]:
    a, b = f"<!-- {name} -->\n", f"<!-- /{name} -->"
    i, j = text.index(a) + len(a), text.index(b)
    text = text[:i] + make() + "\n" + text[j:]
open(f"{HERE}/DESIGN.md", "w").write(text)
