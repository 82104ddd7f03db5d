#!/usr/bin/env python3
"""Writes the cases of the known findings (/verif/findings/*.json): projects that fail on the current tree.
Usage: mkfindings.py, then: qlcdst record <file> to fill in the tag and fingerprints."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
N = lambda n: {"N": n}
NN = lambda n: {"NN": {"N": n}}
fd = lambda name, ty: {"name": name, "ty": ty, "desc": None, "deprecated": False}
ty = lambda name, kind: {"name": name, "desc": None, "kind": kind}
f = lambda name, *sel: {"Field": {"alias": None, "name": name, "args": None, "sel": list(sel)}}
sp = lambda name: {"Spread": {"name": name}}
scal = [ty(n, "Scalar") for n in ("ID", "String", "Int", "Boolean", "Float")]
op = lambda name, *sel: {"Op": {"kind": "Query", "name": name, "vars": [], "sel": list(sel)}}
frag = lambda name, on, *sel: {"Frag": {"name": name, "on": on, "sel": list(sel)}}
def doc(d, *imports):
    return {"Doc": {"header": [{"Import": {"text": i, "suffix": "", "closed": True}} for i in imports], "def": d, "trailer": [], "crlf": False, "compact": False}}
def case(prop, types, entries, root):
    opts = {"use_custom_scalars": False, "scalar_prefix": None, "readonly": True, "deprecation_warnings": False, "threads": 1,
            "import_prefix": None, "globals_module": "graphql-globals", "docnode_module": "@notarize/qlc-cli/typed-documentnode"}
    args = ([root] if root else []) + ["--schema-path", "schema.json", "--num-threads", "1"]
    env = {"mode": 0, "quantum": 400, "ncpu": 4, "max_steps": 3000000}
    return {"property": prop, "tag": "", "text": "", "found_with_seed": 0, "fingerprints": [], "case": {
        "prop": prop, "seed": 0, "flavour": "finding",
        "proj": {"schema": {"types": types + scal}, "schema_raw": None, "schema_missing": False, "schema_path": "schema.json",
                 "root": root, "args": args, "config": None, "opts": opts, "entries": entries},
        "steps": [{"Run": {"args": args, "env": env}}]}}
user = ty("User", {"Object": [fd("id", NN("ID")), fd("name", N("String"))]})
out = {
    "C14-fragment-outside-root": case("C14", [ty("Query", {"Object": [fd("me", N("User"))]}), user], {
        "src/q.graphql": doc(op("Me", f("me", sp("UserBits"))), "../shared/user.graphql"),
        "shared/user.graphql": doc(frag("UserBits", "User", f("id"), f("nmae")))}, "src"),
    "C12-type-name-clash": case("C12", [ty("Query", {"Object": [fd("a_b", N("User")), fd("a", N("A"))]}), ty("A", {"Object": [fd("b", N("Post"))]}),
        ty("Post", {"Object": [fd("title", N("String"))]}), user], {
        "q.graphql": doc(op("Both", f("a_b", f("name")), f("a", f("b", f("title")))))}, ""),
}
# An operation with the name of an enum whose values it selects.
out["C26-name-of-imported-type"] = case("C26", [ty("Query", {"Object": [fd("me", N("User"))]}), ty("Role", {"Enum": ["ADMIN", "GUEST"]}),
    ty("User", {"Object": [fd("role", N("Role"))]})], {"q.graphql": doc(op("Role", f("me", f("role"))))}, "")
# An operation whose name is a reserved word of TypeScript.
out["C26-reserved-word"] = case("C26", [ty("Query", {"Object": [fd("me", N("User"))]}), user], {"q.graphql": doc(op("delete", f("me", f("name"))))}, "")
# The second run uses what the downloader made of the server's schema.
inp = ty("Filter", {"Input": [fd("name", N("String")), dict(fd("nick", N("String")), deprecated=True)]})
c = case("C21", [ty("Query", {"Object": [fd("me", N("User"))]}), user, inp], {
    "q.graphql": doc({"Op": {"kind": "Query", "name": "Me", "vars": [{"name": "f", "ty": N("Filter")}], "sel": [f("me", f("name"))]}})}, "")
run = c["case"]["steps"][0]
c["case"]["steps"] += [{"Edit": {"proj": dict(c["case"]["proj"], schema_raw="@download"), "stamp": 0}}, "Fresh", run]
out["C21-deprecated-input-field"] = c
# Fragments that each import and spread the next, far deeper than anyone nests them.
n = 4000
deep = {f"lib/f{i}.graphql": {"Raw": ["Weird", f'#import "./f{i + 1}.graphql"\nfragment F{i} on Query {{...F{i + 1}}}']} for i in range(n)}
deep[f"lib/f{n}.graphql"] = doc(frag(f"F{n}", "Query", f("me", f("name"))))
out["C02-long-chain"] = case("C02", [ty("Query", {"Object": [fd("me", N("User"))]}), user],
    dict(deep, **{"src/q.graphql": doc(op("Deep", sp("F0")), "../lib/f0.graphql")}), "src")
# A field of an interface that no object of the schema implements (yet).
out["C14-interface-nobody-implements"] = case("C14", [ty("Query", {"Object": [fd("plugin", N("Plugin"))]}),
    ty("Plugin", {"Interface": [[fd("name", N("String"))], []]})], {"q.graphql": doc(op("Plugins", f("plugin", f("name"))))}, "")
for k, v in out.items():
    with open(os.path.join(V, "findings", k + ".json"), "w") as o:
        json.dump(v, o, indent=None if len(str(v)) > 100000 else 1)
