"""Writes ded/levels.json: the claimed level of each property."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open(os.path.join(HERE, "ded", "baseline.json")))
TECH = "contract-based deductive verification of the real functions"
out = {}
# properties whose statement is covered by contracts that are all discharged
PROOF = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
         "C16", "C17", "C18", "C20", "C21", "C22", "C24", "C25"]
# parts of the statement of such a property which only the run-time checker decides
REST = {
    "C24": " (the proof is about what is handed to matplotlib and networkx' drawing functions; that these put it on the axes, and the colours that follow from the values, are read off the real axes at run time; formatted titles are checked at run time)",
    "C17": " (the node-edge matrix of the complex is proved equal to the file; that the edge-triangle matrix then agrees up to a sign per triangle follows from the proved triangle nodes with C01 and is checked at run time, as is writing and reading back)",
    "C21": " (the sign of the eigenvalues of the kernel matrix is checked at run time; symmetry and the spectral form are proved)",
    "C20": " (that the p = 0 and p = 1 graphs are empty and complete, and the determinism of networkx given a seed, are library contracts, exercised at run time)",
    "C25": " (get_faces is proved for simplices of two, three and four vertices, which are all a complex of order two and its cofaces have; longer simplices are bounded)",
}
for p, fs in base.items():
    full = bool(fs) and not any(fs.values())
    n = sum(not v for v in fs.values())
    if p in PROOF:
        assert full, p
        out[p] = dict(level="proof", technique=TECH + " (symbolic execution + normal forms + z3), contracts replayed at run time",
                      note=f"all obligations of the {n} functions under contract are discharged for all inputs over the reals, under the library "
                           "contracts listed in the evidence (trusted_base); floating point, library numerics and clauses only the run-time "
                           "checker evaluates are bounded" + REST.get(p, ""))
    elif n:
        out[p] = dict(level="exploration", technique=TECH + " for part of the functions; the other contracts are evaluated at run time (bounded)",
                      note=f"{n} of {len(fs)} functions with a deductive contract are discharged; the rest of the property is bounded run-time checking")
json.dump(out, open(os.path.join(HERE, "ded", "levels.json"), "w"), indent=1, sort_keys=True)
