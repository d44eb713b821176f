"""Single source of the property list; `python tools/props.py` writes properties.jsonl and MANIFEST.json."""
import json
import os

D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, claimed=True, reason=None, technique=None, note=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  claimed=claimed, reason=reason, technique=technique, note=note))


TECH = "symbolic execution of the real Python code over solver variables; z3 (SMT, nonlinear real/integer arithmetic) decides the negated property"

W = "vayesta/core/types/wf/"
prop("C01", "Wave-function representation changes lose nothing",
     "Converting a wave function between cluster amplitudes and configuration coefficients, for any nonzero reference weight, and back gives exactly the original amplitudes, and a restricted wave function turned into its unrestricted form describes the same state, lambda amplitudes included. The higher (triple, quadruple) coefficients convert to the amplitudes defined by the exponential ansatz.",
     ["inputs"], "for every value of the amplitudes/coefficients and of the reference weight, at every orbital-space shape",
     "Tests compare a handful of converged molecules; converged amplitudes carry extra symmetry (closed shells, small singles) that hides misplaced terms.",
     [W + "ccsd.py", W + "cisd.py", W + "mp2.py", W + "fci.py", W + "cisdtq.py", W + "t_to_c.py", W + "ccsdtq.py"],
     [("as_cisd / as_ccsd / as_unrestricted of the wave-function classes", W), ("c1..c4 to t1..t4 conversion", W + "t_to_c.py")])
prop("C02", "Fragment projection of a wave function is an exact partition",
     "Projecting a wave function onto each member of a complete set of orthogonal fragments and adding the pieces gives back the wave function; projecting and restoring one fragment gives the symmetrised projected amplitudes in the full basis. Projection never changes the original object unless asked to work in place.",
     ["inputs"], "for every amplitude value, every orthogonal fragment rotation and every split of the occupied space",
     "Existing tests use one projector per molecule and closed-shell amplitudes.",
     [W + "project.py", W + "ccsd.py", W + "cisd.py", W + "mp2.py"],
     [("project/restore and symmetrisation", W + "project.py")])
prop("C03", "Rotating the orbital basis leaves physical content unchanged",
     "Rotating a wave function's occupied orbitals among themselves and virtual orbitals among themselves leaves its AO-basis density matrices unchanged, and rotating back restores the amplitudes; for unrestricted wave functions each spin channel is rotated with its own matrix.",
     ["inputs"], "for every amplitude value and every pair of orthogonal rotations",
     "No test rotates with different alpha and beta matrices and compares AO-basis observables.",
     [W + "ccsd.py", W + "project.py", "vayesta/core/types/orbitals.py"],
     [("rotate / rotate_ov", W + "ccsd.py")])
prop("C04", "Transporting or copying objects preserves them exactly",
     "Packing a wave function, orbital set or list of arrays into one flat buffer and unpacking it yields the same arrays, shapes and missing entries; copying yields an equal object that shares no array with the original.",
     ["inputs", "configurations"], "for every array content, shape and presence/absence pattern of optional members, restricted and unrestricted",
     "Packing is only exercised in MPI runs, which the test-suite does not do.",
     ["vayesta/core/helper.py", "vayesta/core/types/orbitals.py", W + "ccsd.py", W + "mp2.py"],
     [("pack_arrays / unpack_arrays", "vayesta/core/helper.py"), ("pack/unpack/copy methods", W)])
prop("C05", "Density matrices from wave functions are consistent",
     "One- and two-body density matrices of a wave function are hermitian with the permutational symmetries of a two-body density matrix, hold the right number of electrons, agree between restricted and unrestricted forms, and the one-body matrix is the contraction of the two-body matrix for exact wave functions. The parts obtained without mean-field or one-body contribution differ from the full ones exactly by those contributions, in the molecular-orbital and in the atomic-orbital basis.",
     ["inputs", "configurations"], "for every amplitude/CI value and every combination of the with/without options",
     "Tests compare norms and converged values for few option combinations.",
     [W + "ccsd.py", W + "mp2.py", W + "fci.py", W + "rdm.py", W + "hf.py", "vayesta/core/vpyscf/ccsd_rdm.py", "vayesta/core/vpyscf/uccsd_rdm.py"],
     [("make_rdm1 / make_rdm2", W)])

# ---- written as machinery lands (see below)
EXTRA = os.path.join(D, "tools", "props_extra.py")
exec(compile(open(EXTRA).read(), EXTRA, "exec"))


def main():
    with open(os.path.join(D, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["pid"]):
            assert len(p["title"]) <= 80, p["pid"]
            f.write(json.dumps(dict(
                id=p["pid"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    man = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=[], not_applicable=[])
    for p in sorted(P, key=lambda p: p["pid"]):
        built = os.path.exists(os.path.join(D, "checks", p["pid"].lower() + ".py"))
        if p["claimed"] and built:
            man["checks"].append(dict(
                property=p["pid"], quick_cmd="bash /verif/run.sh %s --quick" % p["pid"],
                thorough_cmd="bash /verif/run.sh %s --thorough" % p["pid"],
                technique=p["technique"] or TECH, level="model_checking",
                level_note=p["note"] or "Bounded: holds for every value of the symbolic inputs at the sizes listed in the evidence; real arithmetic instead of floating point; numpy/pyscf contracts trusted as listed."))
        else:
            man["not_applicable"].append(dict(property=p["pid"], reason=p["reason"] or "check not built yet"))
    with open(os.path.join(D, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
    print(len(P), "properties,", len(man["checks"]), "claimed")


if __name__ == "__main__":
    main()
