"""The checks: harnesses, applications to build, evidence levels."""
import os
R = os.environ.get("ESPECIA_REPO", "/repo")
A = R + "/src/main/cxx/apps/"
U = R + "/src/main/cxx/util/"
APPS = [dict(name=n, src=A + n + ".cxx") for n in ("curcuma", "oregano", "mascada", "azafran")]
EXTRACTORS = [dict(name=n, src=A + n + ".cxx", core=False, static=True) for n in ("ecom", "edat", "elog", "emes", "emod")]

UTILS = [dict(name=n, src=U + n + ".cxx", archive=True) for n in ("airtovac", "vactoair", "helicorr")] + [dict(name="ezip", src=A + "ezip.cxx", archive=True)]

TSAN = ["-fsanitize=thread", "-g1", "-fno-omit-frame-pointer"]


def shim(b, m):
    return [lambda: m.sh(["g++", "-std=gnu++17", "-O2", "-w", "-fPIC", "-shared", "-o", b.b + "/shim.so", m.V + "/lib/shim.cpp", "-ldl"])]


def stub(b, m):
    return [lambda: m.sh(["gcc", "-O2", "-w", "-static", "-o", b.b + "/stub", m.V + "/lib/stub.c"])]


def locale(b, m):
    def make():
        import subprocess
        os.makedirs(b.b + "/locale", exist_ok=True)
        subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8", b.b + "/locale/de_DE.UTF-8"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return [make]


POOL = dict(plain=["lib/pool.cpp"], ldflags=["-rdynamic"], libs=["-llapack", "-lblas", "-pthread", "-lm", "-ldl"])

WRAP = ["-Wl,--wrap=dsyevd_,--wrap=dsyevr_,--wrap=dsyevx_"]

CHECKS = {
    "C01": dict(technique='stateless model checking of the real code: all interleavings of synchronisation operations within windows, vector-clock race detection', note='controlled scheduler over the real optimizer and model code compiled with memory access instrumentation; interleavings enumerated exhaustively within windows of switch points (per-window cap reported), default schedules outside',
                level="model_checking", harnesses=[dict(name="c01", src=["C01.cxx"], plain=["lib/sched.cpp"], plain_flags=["-fno-threadsafe-statics"], cxx="clang++", inst=TSAN,
                                                        ldflags=["-rdynamic"], libs=["-llapack", "-lblas", "-pthread", "-lm", "-ldl"])]),
    "C03": dict(technique='explicit enumeration of all texts over a token alphabet up to a depth, run through the real tools', note='all sequences of tag lines, text lines and near-tags up to a length per family, compared with a reference automaton',
                level="exploration", harnesses=[dict(name="c03", src=["C03.cxx"], core=False, libs=[])], apps=EXTRACTORS,
                assumptions=["tools run as processes with the standard input in a memory file"]),
    "C05": dict(technique='explicit-state enumeration of strategy states and deviates, conformance of every transition with a reference model of the evolution strategy', note='every combination of finite sets of initial states, rates, weights, moduli, objectives, constraints, deviates; each trace replayed on the real optimizer and compared',
                level="model_checking", harnesses=[dict(name="c05", src=["C05.cxx"], plain=["lib/lapack_wrap.cpp"], ldflags=WRAP)]),
    "C09": dict(technique='explicit enumeration of data texts over a token alphabet, run through the real reader against a reference model', note='all texts of a token alphabet up to a length, and all write/read round trips over a value set',
                level="exploration", harnesses=[dict(name="c09", src=["C09.cxx"], san=True)]),
    "C10": dict(technique='explicit enumeration of data, masks and interval sequences on the real section class against a reference model', note='all combinations of finite value sets and all mask operation sequences up to a depth',
                level="exploration", harnesses=[dict(name="c10", src=["C10.cxx"], san=True)]),
    "C11": dict(technique='explicit enumeration of data, masks, profiles and degrees on the real section class against a high-precision reference', note='all combinations of finite sets; tolerance derived from the condition of the normal equations',
                level="exploration", harnesses=[dict(name="c11", src=["C11.cxx"], san=True)]),
    "C12": dict(technique='explicit enumeration of grids, resolutions and absorptions on the real section class against quadrature of the definition', note='all combinations of finite sets of grid sizes, spacings, resolutions and line shapes',
                level="exploration", harnesses=[dict(name="c12", src=["C12.cxx"], san=True)]),
    "C16": dict(technique="explicit enumeration of seeds, keys, draw positions and copy/call interleavings on the real generators, conformance with reference recurrences",
                note="all seeds of a finite set over at least three regenerations of the state, all copy positions over two regenerations, all uniform sequences over alphabets up to a length",
                level="exploration", harnesses=[dict(name="c16", src=["C16.cxx"], san=True, core=False, libs=[])]),
    "C13": dict(technique="explicit enumeration of line parameters, offsets and line sequences on the real profile classes against the formulas in extended precision and the Voigt function",
                note="all combinations of finite parameter sets including vanishing damping; tolerances derived from the rounding of wavelengths",
                level="exploration", harnesses=[dict(name="c13", src=["C13.cxx"], san=True)]),
    "C25": dict(technique="explicit enumeration of a wavelength grid, velocities, accuracy goals and root finding problems on the real functions against published formulas in extended precision",
                note="dense logarithmic grid over the documented wavelength range (not every double), all velocity pairs of a set, all combinations of root finding settings",
                level="exploration", harnesses=[dict(name="c25", src=["C25.cxx"], san=True)]),
    "C14": dict(technique="explicit enumeration of formulas, polynomial degrees, intervals and forced refinement histories on the real integrator, conformance with bisection without reuse",
                note="all pairs of different formulas, all degrees up to exactness, all numbers of refinements up to a bound",
                level="exploration", harnesses=[dict(name="c14", src=["C14.cxx"], san=True)]),
    "C15": dict(technique="explicit enumeration of matrices over finite entry sets, structures, use histories and solver failures on the real decomposers",
                note="all matrices of dimension up to 4 over finite entry sets (5 over {0,1}), structured ones up to 33, all histories up to a length; solver failures injected at the LAPACK interface",
                level="exploration", harnesses=[dict(name="c15", src=["C15.cxx"], plain=["lib/lapack_wrap.cpp"], ldflags=WRAP, san=True)]),
    "C19": dict(technique="explicit-state enumeration of all setting sequences up to a depth on the real builder, conformance with an abstract record of last values",
                note="all sequences of 25 settings up to length 4 (thorough 5), every one replayed on the real builder",
                level="model_checking", harnesses=[dict(name="c19", src=["C19.cxx"])]),
    "C07": dict(technique="explicit enumeration of model definitions (all reference graphs, parameter kinds, layouts up to a size) on the real parser, conformance with a reference meaning of definitions",
                note="every parsed model is compared with the meaning of its text: free parameters, bounds, initial values, and cost at several points",
                level="exploration", harnesses=[dict(name="c07", src=["C07.cxx"])]),
    "C08": dict(technique="explicit enumeration of edits (token, line, byte), truncations and short texts on the real parser under address and undefined behaviour sanitizers, conformance with a strict reference reader",
                note="all single edits and truncations of a definition, pairs of edits of short ones, all short texts over an alphabet of fragments; accepted texts are compared with their meaning",
                level="exploration", harnesses=[dict(name="c08", src=["C08.cxx"], san=True)]),
    "C06": dict(technique="explicit enumeration of settings, stop generations and trace moduli on the real optimizer, each search judged by the states after its single generations",
                note="every search of up to 24 (thorough 40) generations is replayed with every smaller stop generation; goal and underflow recomputed from states and evaluations",
                level="model_checking", harnesses=[dict(name="c06", src=["C06.cxx"], **POOL), dict(name="c06p", src=["C06p.cxx"], **POOL)], apps=APPS),
    "C20": dict(technique="explicit enumeration of search settings and relations (mirror, increasing functions, exact rescaling) on pairs of runs of the real optimizer, compared candidate by candidate",
                note="exact comparison of every state variable and every candidate of every generation",
                level="exploration", harnesses=[dict(name="c20", src=["C20.cxx"], **POOL)]),
    "C21": dict(technique="explicit enumeration of quadratic objectives, search distributions and step sizes on the real estimate, compared with the closed form",
                note="all combinations of finite sets; whole searches chained with the estimate",
                level="exploration", harnesses=[dict(name="c21", src=["C21.cxx"], **POOL)]),
    "C04": dict(technique="explicit enumeration of deviates over an alphabet, constraints and axes on the real sampling, conformance with a reference of the rejection rule; whole searches and model fits monitored candidate by candidate",
                note="all sequences of the first deviates over an alphabet including values on the bounds; all pairs of bound kinds in whole searches",
                level="model_checking", harnesses=[dict(name="c04", src=["C04.cxx"], **POOL)]),
    "C22": dict(technique="explicit enumeration of models (parameter kinds, references, line types, masks, polynomials) with distinct values on the real writer, every table cell and data row compared with the meaning of the definition",
                note="every cell compared within its displayed precision, data rows with the data file and each other",
                level="exploration", harnesses=[dict(name="c22", src=["C22.cxx"])]),
    "C17": dict(technique="explicit enumeration of data files over an alphabet of rows, skip counts and argument lists, run through the real utilities against a reference reading of the text and the formulas in extended precision",
                note="every file up to a length, with and without final newline; files of 20000 rows around the reserved size; every pair of files to merge up to a length",
                level="exploration", harnesses=[dict(name="c17", src=["C17.cxx"], core=False, libs=[])], apps=UTILS),
    "C23": dict(technique="exhaustive fault injection into the output of the real programs: every byte at which it can be cut off, every write failing or cut short",
                note="limits of the file size at every byte; every write system call decided by a supervisor: errors (once, twice, for good) and short writes; full and closed devices",
                level="fault_enumeration", harnesses=[dict(name="c23", src=["C23.cxx"], core=False, libs=[])], apps=APPS + UTILS + EXTRACTORS),
    "C18": dict(technique="exhaustive fault injection: every evaluation, constraint test, trace, thread creation and decomposition of a search on the real optimizer, and every thread creation and decomposition of the real programs fails; all argument lists of a menu",
                note="every point evaluated and every pair of points; every position of a failing thread creation and LAPACK call in the programs",
                level="fault_enumeration", harnesses=[dict(name="c18", src=["C18.cxx"], plain=["lib/pool.cpp", "lib/lapack_wrap.cpp"], ldflags=WRAP + ["-rdynamic"], libs=["-llapack", "-lblas", "-pthread", "-lm", "-ldl"]),
                                                          dict(name="c18p", src=["C18p.cxx"], core=False, libs=[])], apps=APPS, build=shim),
    "C24": dict(technique="exhaustive fault injection into the real scripts: every step of them fails (nothing, half or all done) or the script is killed there, for all lists of files and command outcomes of a menu; all sets of expected and present values",
                note="the commands used by the scripts are replaced by stand-ins that count steps and fail at one of them",
                level="fault_enumeration", harnesses=[dict(name="c24", src=["C24.cxx"], core=False, libs=[])], apps=EXTRACTORS, build=stub),
    "C02": dict(technique="explicit enumeration of histories of runs before an observed run on the real library (every case in a process of its own), of environments of the real programs, and of re-runs by the real script; results compared bit by bit",
                note="all histories of up to three runs of fifteen kinds; all environments (thorough: all pairs) of a menu for every program, definition and command",
                level="exploration", harnesses=[dict(name="c02", src=["C02.cxx"], **POOL), dict(name="c02p", src=["C02p.cxx"], core=False, libs=[])], apps=APPS + EXTRACTORS, build=locale),
}

NOT_APPLICABLE = {}
