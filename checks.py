"""Which models, drivers and trace specifications decide each property."""
CHECKS = {}
TREE = dict(module="MCClusterTree", cfg="MCClusterTree.cfg", cfg_thorough="MCClusterTree_t.cfg")
for p, n in (("C01", (160, 2500)), ("C02", (240, 4000)), ("C03", (160, 2500)), ("C04", (200, 3000)), ("C05", (160, 2000)), ("C06", (300, 5000))):
    CHECKS[p] = dict(models=[TREE], jobs=[dict(driver="d_cluster", spec="TrCluster", cases=n)])
BLOCK = dict(module="MCBlockTree", cfg="MCBlockTree.cfg", cfg_thorough="MCBlockTree_t.cfg")
for p, n in (("B01", (400, 6000)), ("B02", (400, 6000)), ("B03", (250, 4000)), ("B04", (400, 6000)), ("B05", (200, 3000))):
    CHECKS[p] = dict(models=[BLOCK], jobs=[dict(driver="d_block", spec="TrBlock", cases=n)])
HMAT = dict(module="MCHmat", cfg="MCHmat.cfg", cfg_thorough="MCHmat_t.cfg", timeout_thorough=3000)
def structures(quick, thorough):
    return [dict(module="MCHmat", cfg="MCHmat_r.cfg", simulate=45, take=(quick, thorough // 4)),
            dict(module="MCHmat", cfg="MCHmat_x.cfg", take=(0, thorough))]
for p, n in (("H02", (300, 4000)), ("H03", (300, 4000)), ("H04", (400, 6000)), ("H05", (200, 3000)), ("H09", (200, 3000))):
    CHECKS[p] = dict(models=[HMAT], jobs=[dict(driver="d_alg", spec="TrAlg", cases=n, gen=structures(150, 26600))])
for p, n in (("H06", (200, 3000)), ("H07", (250, 4000))):
    CHECKS[p] = dict(models=[HMAT], jobs=[dict(driver="d_fact", spec="TrAlg", cases=n, gen=structures(200, 26600))])
for p, n in (("H04", (500, 12000)), ("H05", (400, 8000)), ("H06", (400, 8000)), ("H07", (400, 8000))):  # at a tolerance
    CHECKS[p]["jobs"].append(dict(driver="d_approx", spec="TrApprox", cases=n))
STORE = dict(module="MCStore", cfg="MCStore.cfg", cfg_thorough="MCStore_t.cfg", workers=1)
CHECKS["H08"] = dict(models=[STORE], jobs=[dict(driver="d_store", spec="TrAlg", cases=(0, 0), gen=[
    dict(module="MCStore", cfg="MCStore_x.cfg", take=(500, 8000)),
    dict(module="MCStore", cfg="MCStore_r.cfg", simulate=12, take=(250, 4000))])])
OMP = dict(module="MCOmp", cfg="MCOmp.cfg", cfg_thorough="MCOmp_t.cfg")
CHECKS["H10"] = dict(models=[OMP], jobs=[
    dict(driver="d_omp", spec="TrAlg", cases=(0, 0), gen=[
        dict(module="MCOmp", cfg="MCOmp_x.cfg", take=(150, 624)),
        dict(module="MCOmp", cfg="MCOmp_r.cfg", simulate=70, take=(250, 4000))]),
    dict(driver="d_omp", spec="TrAlg", cases=(150, 2000), flags=["-fsanitize=thread", "-g"])])
CHECKS["H11"] = dict(models=[], jobs=[dict(driver="d_stats", spec="TrStats", cases=(160, 2000))] + [
    dict(driver="d_stats", spec="TrStats", suite="dist", cases=c, np=n, shards=2) for n, c in ((1, (14, 100)), (2, (40, 300)), (3, (40, 300)), (4, (40, 300)))])
CHECKS["H01"] = dict(models=[], jobs=[dict(driver="d_approx", spec="TrApprox", cases=(1000, 12000))])
CHECKS["L02"] = dict(models=[], jobs=[dict(driver="d_approx", spec="TrApprox", cases=(2000, 30000)), dict(driver="d_lrmat", spec="TrAlg", cases=(1500, 20000))])
CHECKS["L01"] = dict(models=[], jobs=[dict(driver="d_approx", spec="TrApprox", cases=(3000, 40000))])
for p, n in (("M01", (2000, 30000)), ("M02", (400, 6000))):
    CHECKS[p] = dict(models=[], jobs=[dict(driver="d_dense", spec="TrAlg", cases=n)])
VAL = dict(module="MCValues", cfg="MCValues.cfg", cfg_thorough="MCValues_t.cfg")
VGEN = [dict(module="MCValues", cfg="MCValues_x.cfg", take=(2500, 100000)), dict(module="MCValues", cfg="MCValues_r.cfg", simulate=18, take=(400, 12000))]
CHECKS["M03"] = dict(models=[VAL], jobs=[dict(driver="d_value", spec="TrValues", cases=(300, 6000), gen=VGEN),
                                         dict(driver="d_value", spec="TrValues", cases=(100, 1000), gen=VGEN, flags=["-O0", "-fsanitize=address,undefined", "-g1"])])
LOGM = dict(module="MCLogging", cfg="MCLogging.cfg", cfg_thorough="MCLogging_t.cfg")
CHECKS["G01"] = dict(models=[LOGM], jobs=[dict(driver="d_log", spec="TrLogging", cases=(0, 0), gen=[
    dict(module="MCLogging", cfg="MCLogging_x.cfg", take=(2000, 20736)), dict(module="MCLogging", cfg="MCLogging_r.cfg", simulate=22, take=(500, 10000))])])
CHECKS["V01"] = dict(models=[], jobs=[dict(driver="d_vector", spec="TrVector", cases=(1000, 30000)),
                                      dict(driver="d_vector", spec="TrVector", cases=(150, 3000), flags=["-O0", "-fsanitize=address,undefined", "-g1"])])
DISTM = dict(module="MCDist", cfg="MCDist.cfg", cfg_thorough="MCDist_t.cfg")
DGEN = [dict(module="MCDist", cfg="MCDist_x.cfg", simulate=60, take=(500, 20000))]
for p in ("D01", "D02", "D03", "D04"):
    CHECKS[p] = dict(models=[DISTM], jobs=[
        dict(driver="d_dist", spec="TrDist", cases=c, np=n, shards=2, gen=DGEN) for n, c in ((1, (60, 800)), (2, (100, 1500)), (3, (100, 1500)), (4, (80, 1200)), (5, (60, 1000)))] + [
        dict(driver="d_dist", spec="TrDist", cases=(25, 400), np=2, flags=["-O0", "-fsanitize=address,undefined", "-g1"], env=dict(ASAN_OPTIONS="detect_leaks=0"))])
CHECKS["D05"] = dict(models=[], jobs=[dict(driver="d_dist", spec="TrDist", cases=c, np=n, shards=2) for n, c in ((1, (200, 2500)), (2, (150, 2000)), (3, (100, 1500)))] + [
    dict(driver="d_dist", spec="TrDist", cases=(40, 400), np=2, flags=["-O0", "-fsanitize=address,undefined", "-g1"], env=dict(ASAN_OPTIONS="detect_leaks=0"))])
CHECKS["S01"] = dict(models=[HMAT], jobs=[dict(driver="d_solver", spec="TrAlg", cases=(1200, 20000), gen=structures(200, 13300)),
                                      dict(driver="d_solver", spec="TrAlg", cases=(200, 3000), flags=["-O0", "-fsanitize=address,undefined", "-g1"])])
DDMM = dict(module="MCDdm", cfg="MCDdm.cfg", cfg_thorough="MCDdm_t.cfg")
DDMGEN = [dict(module="MCDdm", cfg="MCDdm_x.cfg", simulate=60, take=(150, 16000))]
ASAN = dict(flags=["-O0", "-fsanitize=address,undefined", "-g1"], env=dict(ASAN_OPTIONS="detect_leaks=0"))
def ddm(suite, quick, thorough, gen):
    return [dict(driver="d_ddm", spec="TrDdm", suite=suite, cases=(quick, thorough), np=n, gen=gen) for n in (1, 2, 3, 4)] + [
        dict(driver="d_ddm", spec="TrDdm", suite=suite, cases=(quick // 4, thorough // 4), np=3, **ASAN)]
CHECKS["S02"] = dict(models=[DDMM], jobs=ddm("S02", 80, 2000, DDMGEN))
CHECKS["S03"] = dict(models=[DDMM], jobs=ddm("S03", 100, 1600, []) + [dict(driver="d_ddm", spec="TrDdm", suite="space", cases=(1500, 20000)),
                                                                     dict(driver="d_ddm", spec="TrDdm", suite="space", cases=(300, 4000), **ASAN)])
CHECKS["S04"] = dict(models=[DDMM], jobs=ddm("S04", 120, 2000, []))
NOT_APPLICABLE = {}
# the same drivers built for single precision (harness/single.hpp)
SINGLE = ["-include", "single.hpp"]
for p, c in CHECKS.items():
    more = []
    for j in c["jobs"]:
        if j["driver"] in ("d_omp", "d_approx", "d_log") or j.get("flags") or j.get("np") not in (None, 2) or j["cases"][0] == 0:
            continue
        more.append(dict({k: v for k, v in j.items() if k != "gen"}, cases=tuple(max(20, x // 4) for x in j["cases"]), flags=SINGLE))
    c["jobs"] += more
