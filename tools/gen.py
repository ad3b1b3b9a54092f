#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RM, ST, DI, OB, DA = ("refellips/%s.py" % x for x in ("reflect_modelSE", "structureSE", "dispersion", "objectiveSE", "dataSE"))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [])))


prop("C01", "Psi and Delta of a layered structure are those of Maxwell's equations",
     "For a stack of homogeneous layers between two media, the model returns tan(Psi) = |rp/rs| and Delta = the phase of rs/rp in degrees (modulo 360) plus the "
     "model's delta offset, where rp and rs are the reflected amplitudes of the stack in the exp(-i omega t), n + ik convention (rp = -rs at normal incidence). "
     "This holds for transparent and absorbing layers in any order, including light that is totally reflected inside the stack, where the "
     "wave that decays away from the interface is the one that counts.",
     ["inputs"], "all thicknesses, real and imaginary indices, wavelengths, angles of incidence and delta offsets, per arrangement of transparent/absorbing layers",
     "the tests compare a few WVASE files (fixed materials, one or two angles) to loose tolerances; no total internal reflection, no absorbing film on a transparent substrate, few thicknesses",
     [RM, ST], [("transfer matrix product and forward-angle selection", RM + ":coh_tmm"), ("psi and delta from rp/rs", RM + ":Delta_Psi_TMM")],
     ["ReflectModelSE(...)(wavelength_aoi)"])
prop("C02", "Reflected and transmitted amplitudes solve the boundary-value problem",
     "The amplitudes rs, rp, ts and tp that the transfer-matrix routine returns for a stack are the solution of the boundary conditions of s- and p-polarised "
     "light at every interface, for one or many angles and wavelengths at once. Between transparent media, without total reflection, reflected plus transmitted power is the incident power.",
     ["inputs"], "all indices, thicknesses, wavelengths, angles, per arrangement of layers",
     "no test looks at the transmitted amplitudes at all, and rs/rp only enter through psi and delta of a few stacks",
     [RM], [("characteristic matrices", RM + ":coh_tmm"), ("Fresnel coefficients", RM + ":interface_r_s, interface_r_p, interface_t_s, interface_t_p")])
prop("C03", "Conventions of Psi and Delta: ranges, offset, reflection about 180",
     "Psi lies in [0, 90] and Delta, before the offset, in [0, 360] degrees for every stack; the delta offset is then added as it is, in degrees, and touches nothing else. With "
     "reflected Delta (WVASE convention), values above 180 are replaced by 360 minus the value before the offset is added and nothing else changes, whether asked of the function or of the model that fits such data.",
     ["inputs", "configurations"], "all stacks in the bounds, all offsets, both conventions",
     "tests use one convention with no offset and smooth spectra that rarely cross 180 or 360",
     [RM], [("offset, wrap and reflection", RM + ":Delta_Psi_TMM"), ("convention flag of the model", RM + ":ReflectModelSE.model")])
prop("C04", "The model is a pure function of each (wavelength, angle) row",
     "The Psi and Delta returned for a row depend only on that row's wavelength and angle and on the current parameter values: not on the other rows, their order, "
     "repeated wavelengths, integer or float (or list) input, or on earlier evaluations of the model or of another model sharing the structure. "
     "Evaluating does not modify the caller's arrays.",
     ["inputs", "histories"], "all values and all orderings/coincidences of up to 3 rows; sequences of evaluations with parameters changed in between",
     "tests evaluate sorted float spectra once; grouping by unique wavelength makes order and repetition matter only in unusual data sets",
     [RM, ST], [("rows grouped by wavelength and scattered back", RM + ":ReflectModelSE.model"), ("structure.wavelength state", ST + ":StructureSE.slabs")])
prop("C05", "The slab table of a structure: order, reversal, solvation, wavelength",
     "The slab table of a structure has one row per layer in order of incidence holding thickness, refractive index, extinction coefficient, roughness and "
     "solvent fraction; reversing the structure reverses the layers and keeps each roughness with its interface. Inner layers with a solvent fraction are mixed, "
     "by the structure's mixing rule and depolarisation factor, with the solvent (by default the backing medium), and every medium is evaluated at the wavelength asked for. "
     "Fronting and backing are never solvated and a structure that does not end in plain slabs is refused.",
     ["inputs", "configurations"], "all optical constants, thicknesses, roughnesses, fractions; 1-3 films (8 in thorough), three mixing rules, with and without an explicit solvent, both directions",
     "tests check one or two hand-made structures per feature, never combined reversal, solvation and roughness",
     [ST], [("assembly of the table", ST + ":StructureSE.slabs"), ("solvation", ST + ":StructureSE.overall_ri"), ("two-material layers", ST + ":MixedSlabSE.slabs")])
prop("C06", "Effective medium approximations satisfy their defining equations",
     "The mixed index of two media with volume fraction f of the second is the square root of the mixed dielectric function: the volume average (linear), "
     "Maxwell-Garnett, or a root of the Bruggeman equation with the given depolarisation factor (1/3 by default), for real and complex media, scalars and arrays alike. An unknown scheme is refused.",
     ["inputs"], "all n in [1,5], k in [0,8], fractions in [0,1], depolarisation factors in [0,1]",
     "the tests compare a few transparent mixtures at fixed fractions with stored numbers",
     [ST], [("three mixing rules", ST + ":overall_ri")])
prop("C07", "Effective media: pure limits, symmetry and physical sense",
     "A fraction of 0 or 1 gives back the pure medium, mixing a medium with itself changes nothing, the linear and Bruggeman rules do not depend on which medium is called the host, "
     "and mixtures of transparent media have an index between those of the constituents. Mixtures of absorbing media absorb: the extinction coefficient is never negative.",
     ["inputs"], "all media, fractions and depolarisation factors in the bounds",
     "limits and signs are not tested; the choice of root of the quadratic only shows for absorbing media",
     [ST], [("choice of root", ST + ":overall_ri")])
prop("C08", "Cauchy, Sellmeier and Lorentz dispersion follow their formulas",
     "The complex refractive index of a Cauchy, Sellmeier or Lorentz material at any wavelength is the one of its published formula with the current parameter values "
     "(wavelengths in nm, oscillator energies in eV, photon energy hc/wavelength); a Lorentz oscillator never amplifies. "
     "Without a wavelength the material's own wavelength is used; several oscillators add up; parameter lists of different lengths are refused.",
     ["inputs", "configurations"], "all parameters and wavelengths in the bounds, 1-3 terms",
     "tests compare with stored curves for one parameter set per model",
     [DI, ST], [("formulas", DI + ":Cauchy.complex, Sellmeier.complex, Lorentz.epsilon"), ("energy to index", ST + ":ScattererSE.complex, nm_eV_conversion")])
prop("C09", "Tauc-Lorentz dispersion follows the Jellison-Modine formula",
     "The dielectric function of a Tauc-Lorentz material is that of Jellison and Modine with the current parameter values at every photon energy: no absorption up to "
     "the gap, the published imaginary part above it and the published Kramers-Kronig real part everywhere. It is finite for every physical set of parameters, also at the gap and for "
     "broad oscillators.",
     ["inputs"], "all parameters in the bounds with E0 > Eg and C < 2 E0, energies below, at and above the gap, 1-3 oscillators",
     "tests use one amorphous-silicon-like parameter set",
     [DI], [("real and imaginary part", DI + ":TaucLorentz.epsilon")])

exec(open(os.path.join(HERE, "tools", "props2.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props2.py")) else None

NA = []
checks = []
keep = []
for p in P:
    if not os.path.exists(os.path.join(HERE, "harness", p["id"].lower() + ".py")):
        continue
    keep.append(p)
    cmd = "/opt/venv/bin/python run.py %s --tier " % p["id"]
    checks.append(dict(property=p["id"], quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough",
                       technique="symbolic execution of /repo's Python source with an SMT solver (z3) deciding each assertion",
                       level="other",
                       level_note="Bounded decision: each assertion holds for every real value of the symbolic inputs within the case's stated ranges and sizes "
                                  "(listed in the evidence), on every path; reals stand for doubles, library calls are facades validated against the real library on sampled points. "
                                  "Counterexamples are replayed on the unpatched package before they are reported."))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in keep:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python run.py --selftest", checks=checks, not_applicable=NA,
                   notes="Solver-based checking; see DESIGN.md. Fix commits and known findings: known_findings.json."), f, indent=1)
    f.write("\n")
print(len(keep), "properties")
