"""Histories (C32) and chunked input (C31) belong to every property whose functions they call: its check runs them too.
Likewise values of any magnitude, and input in single precision, the usual type of model output: cases of the property itself, with float32 arrays and a
tolerance far above the rounding errors of single precision arithmetic."""
import copy
import re

H, K = {}, {}
_ = lambda d, p, *names: d.setdefault(p, []).extend(names)  # noqa: E731
for p in ("C01", "C02", "C03", "C23"):
    _(H, p, "density and spice")
_(H, "C04", "layers")
_(H, "C05", "sea level local linear", "sea level local Wright")
_(H, "C06", "sea level global linear", "sea level global Wright")
_(H, "C07", "sea level local linear")
_(H, "C08", "sea level local linear", "sea level global linear")
_(H, "C10", "sea level local linear", "waves")
_(H, "C11", "annual")
_(H, "C12", "monthly")
_(H, "C13", "cycle")
_(H, "C14", "lines trend", "lines detrend")
_(H, "C15", "units", "lines spread")
_(H, "C16", "lines seasonal")
_(H, "C17", "daily")
_(H, "C18", "stability linear", "stability Wright", "waves")
_(H, "C19", "waves")
_(H, "C20", "vorticity", "vorticity symmetric")
_(H, "C21", "vorticity", "vorticity symmetric")
_(H, "C22", "stability linear")
_(H, "C24", "areas")
_(H, "C25", "locations")
_(H, "C26", "gauges")
_(H, "C27", "odds")
_(H, "C28", "inverse barometer")
_(H, "C30", "sea level local linear", "odds")

K = {"C01": r"(rho|pdens) .*", "C02": r"(alpha|beta) .*", "C03": r"(rho|pdens) linear", "C04": r"thickness.*", "C05": r"local.*", "C06": r"global.*", "C07": r".*supplied|mass|volume.*", "C08": r"(thermo|halo)steric.*", "C09": r"local any missing|mass.*|rho Wright|n2 linear|angle linear",
     "C11": r"annual.*", "C12": r"monthly.*", "C13": r"(mean|min|max|std).*", "C14": r"(trend|detrend|correct|dataset).*", "C15": r"spread", "C16": r"seasonal.*", "C18": r"n2 .*|adjusted.*", "C19": r"waves.*", "C20": r"vorticity.*", "C21": r"vorticity.*", "C22": r"angle .*", "C23": r"spice.*", "C26": r"gauges.*", "C28": r"ibh .*"}

# property -> (cases, tolerance in units of the case's scale)
S = {"C01": (r"kernel n=2 missing|calc_rho \w+ (profile|full)|pdens \w+ (default|free level)|layout \w+ (mixed|permuted|outer)|pressure map \w+", 1e-2),
     "C02": (r"\w+ kernels missing|\w+ wrappers (profile|full)|layout \w+ (mixed|permuted)", 1e-2), "C03": (r"labelled (none|field|map|pdens)|affine missing|affine reference", 1e-2),
     "C04": (r"thickness nz=3|window [tb]+|fraction|layout (line|transposed|cube)", 1e-2), "C05": (r"column nz=2|linear plane|supplied reference|pressure map|any missing linear|thermosteric options|halosteric linear, strict|annual steric linear", 1.0),
     "C06": (r"basin|linear|supplied reference linear|any missing linear|thermosteric|halosteric supplied|annual steric", 1e5), "C07": (r"column|linear|time index 1|free pressure|reuse (local|global)", 1e-2),
     "C08": (r"(thermo|halo)steric( linear)?|(thermo|halo)steric reference at time 1|options \w+ local( linear)?|unseen \w+ (local|global) linear given|no change \w+ (local|global) linear", 1.0, r"options \w+ global( linear)?", 1e5),
     "C09": (r"local linear|global linear|columns (dz|annual|monthly|cycle)", 1.0), "C10": (r"local|global|n2|angle|time (annual|monthly|cycle|trend|detrend)|mass", 1e3),
     "C11": (r"(noleap 1|standard 2000)|dataset|time last|labelled", 1e-2), "C12": (r"standard five-day|noleap daily|dataset gaps|labelled gaps", 1e-2), "C13": (r"(mean|min|max|std) two years|dataset (mean|std)", 1e-2),
     "C14": (r"slope (noleap|standard|numeric|columns)|detrend (noleap|standard|columns)|dataset (remove|correct)", 1e-2), "C15": (r"line per yr standard zero=\w+|map per day zero=\w+", 1e-2), "C16": (r"monthly|uneven|map|labelled, time last", 1e-2),
     "C17": (r"residuals noleap 1|coeff noleap 1|map (residuals|model)|gaps residuals", 1e-2), "C18": (r"N2 \w+|N2 \w+ time|adjust|adjust z first|combined", 10.0), "C19": (r"coriolis|speed|speed stable|radius", 1e-2),
     "C20": (r"symmetric=\w+|time symmetric=\w+|levels symmetric=\w+", 1e3), "C21": (r"symmetric=\w+ units=None|own dimensions symmetric=\w+ interp=\w+", 10.0), "C23": (r"vector|map|labelled|kernel cube", 10.0),
     "C24": (r"labelled=\w+|names", 1e-2), "C28": (r"default|linear|gravity|static water default|orders linear", 1.0)}

# values of any magnitude: fill values in use elsewhere (1e20, 9.97e36) are ordinary numbers here
M = {"C11": r"(noleap 1|standard 2000|two years to leap|twelve years)|time last", "C12": r"standard five-day|noleap daily|labelled gaps", "C13": r"(mean|min|max|std) (two|three) years", "C14": r"slope (noleap|numeric)|detrend (noleap|columns)", "C16": r"monthly|map", "C17": r"(residuals|coeff) noleap 1|map (residuals|model)", "C26": r"field: (map|levels|auxiliary)"}
# some arrays in double, the others in single precision
D = {"C05": (r"supplied reference( linear)?|reference, pressure map", 1.0), "C06": (r"supplied reference linear|(thermo|halo)steric supplied", 1e5), "C08": (r"\w+ given reference (Wright|linear)", 1.0, r"\w+ given reference global", 1e5)}


def attach(mod, pid):
    own = mod.cases

    def cases(tier):
        from . import c31, c32

        q = list(own(tier))
        if pid in S:
            for k in list(q):
                tol = [t for r, t in zip(S[pid][::2], S[pid][1::2]) if re.fullmatch(r, k.name)]
                if tol:
                    k = copy.copy(k)
                    k.name, k.single = "single precision: " + k.name, tol[0]
                    q.append(k)
        if pid in D:
            for k in own(tier):
                for r, t in zip(D[pid][::2], D[pid][1::2]):
                    if re.fullmatch(r, k.name):
                        for w, f in (("reference in double precision", "r.*"), ("data in double precision", "[TSVAD]"), ("temperature in double precision", "r?T"), ("salinity in double precision", "r?S")):
                            j = copy.copy(k)
                            j.name, j.single, j.double = f"{w}: " + k.name, t, f
                            q.append(j)
        if pid in M:
            for k in own(tier):
                if re.fullmatch(M[pid], k.name):
                    for w, f in (("large", 1e37), ("small", 1e-20))[:1 if pid == "C26" else 2]:
                        j = copy.copy(k)
                        j.name, j.mag = f"{w} values: " + k.name, f
                        q.append(j)
        if pid in H:
            for k in c32.cases("quick"):
                if k.name in H[pid]:
                    k.name = "history: " + k.name
                    q.append(k)
        if pid in K:
            for k in c31.cases("quick"):
                if re.fullmatch(K[pid], k.name):
                    k.name = "chunked: " + k.name
                    q.append(k)
        return q

    mod.cases = cases
    return mod
