"""Planted bugs, fifth batch."""
BUGS = [
dict(id="c10d", prop="C10", needs="several pulses whose objects happen to lie in memory in another order than they are configured",
     breaks="the pulses draw their random frequencies in the order of a set of objects, which depends on their addresses",
     edits=[("Controls.py", '''        """Initializes the super parameter basis"""
        for pulse in self.pulse_objs_list:
''', '''        """Initializes the super parameter basis"""
        for pulse in set(self.pulse_objs_list):
''')],
     demo="""
seen = []
keep = []
for i in range(6):
    d = dcrab(si=1, pulses=8, criteria={"max_eval": 3})
    d["optimization_client_name"] = "demo%d" % i
    opt, fom = run(d, bowl)
    seen.append([np.concatenate(c[0]) for c in fom.calls])
    keep.append((opt, [object() for _ in range(97 * i)], [bytearray(100 + 7 * j) for j in range(13 * i)]))
for s in seen[1:]:
    if any(not np.array_equal(a, b) for a, b in zip(seen[0], s)):
        fail("the same seed gave other controls")
"""),
dict(id="c01c", prop="C01", needs="an improvement that is small compared with the value itself",
     breaks="improvements within np.isclose of the record are not recorded",
     edits=[("optimizationalgorithms/OptimizationAlgorithm.py", "        if FoM < self.best_FoM:\n",
             "        if FoM < self.best_FoM and not np.isclose(FoM, self.best_FoM):\n")],
     demo="""
opt, fom = run(search(2, criteria={"max_eval": 30}), lambda n, p, x: 1000.0 + 1e-3 * sum((a - 1.0) ** 2 for a in x))
if results(opt)["Figure of merit"] != min(fom.values):
    fail("reported %r, best %r" % (results(opt)["Figure of merit"], min(fom.values)))
"""),
dict(id="c11b", prop="C11", needs="a second run constructed before the first one is executed",
     breaks="the folder for the results is shared by all the runs of the process: the last one constructed",
     edits=[("utils/BestDump.py", "        self.best_controls_path = results_path\n        self.results_path = results_path\n",
             "        self.best_controls_path = results_path\n        BestDump.results_path = results_path\n")],
     demo="""
d = search(2)
d["optimization_client_name"] = "first"
a = quiet(lambda: make(d, bowl))
b = quiet(lambda: make(search(2), bowl))
quiet(a.execute)
if not glob.glob(os.path.join(a.results_path, "*best_controls*")):
    fail("the best controls of the first run are not in its folder")
"""),
dict(id="c11c", prop="C11", needs="a run stopped by its user while another one is waiting",
     breaks="the exit flag is shared by all the runs of the process",
     edits=[("handleexit/HandleExit.py", "        self.is_user_running = is_running", "        HandleExit.is_user_running = is_running"),
            ("handleexit/HandleExit.py", "        self.is_user_running = True", "        HandleExit.is_user_running = True")],
     demo="""
d = search(2)
d["optimization_client_name"] = "first"
a = quiet(lambda: make(d, bowl))
b = quiet(lambda: make(search(2, criteria={"max_eval": 9}), bowl))
a.fom.f = lambda n, p, x: (a.opt_alg_obj.stop_optimization(), 1.0)[1]
quiet(a.execute)
quiet(b.execute)
if len(b.fom.calls) < 9:
    fail("the second run was stopped as well: %d evaluations" % len(b.fom.calls))
"""),
dict(id="c15c", prop="C15", needs="two pulses on different times",
     breaks="every pulse is built on the final time of the last configured time",
     edits=[("Controls.py", '''        for pulse in self.pulse_objs_list:
            time_name = pulse.time_name
            pulses_list.append(
                pulse.get_pulse(optimized_parameters_vector[pulse.control_parameters_list],
                                final_time=self.times_obj_dictionary[time_name].get_time()))
            time_grids_list.append(pulse.time_grid)
''', '''        for pulse in self.pulse_objs_list:
            pulses_list.append(
                pulse.get_pulse(optimized_parameters_vector[pulse.control_parameters_list],
                                final_time=time.get_time()))
            time_grids_list.append(pulse.time_grid)
''')],
     demo="""
d = dcrab(si=1, pulses=2, criteria={"max_eval": 3})
d["times"].append({"time_name": "T2", "initial_value": 2.5})
d["pulses"][1]["time_name"] = "T2"
opt, fom = run(d, bowl)
ends = [float(t[-1]) for t in fom.calls[0][2]]
if not np.allclose(ends, [1.0, 2.5]):
    fail("the time grids end at %s" % ends)
"""),
dict(id="c02c", prop="C02", needs="reading the saved best controls back to full precision",
     breaks="the best controls are saved in single precision",
     edits=[("utils/BestDump.py", "            controls_dict[pulse_name] = pulse\n",
             "            controls_dict[pulse_name] = np.asarray(pulse, dtype=np.float32)\n")],
     demo="""
opt, fom = run(dcrab(si=1, criteria={"max_eval": 30}), bowl)
k = int(np.argmin(fom.values))
z = np.load(glob.glob(os.path.join(opt.results_path, "*best_controls.npz"))[0])
if not np.allclose(z["p0"], fom.calls[k][0][0], rtol=0, atol=1e-12):
    fail("the saved controls are not the best ones")
"""),
dict(id="c06c", prop="C06", needs="a goal written down as a whole number, in a maximization",
     breaks="a goal that is an integer is not brought to the sign of the minimization",
     edits=[("optimizationalgorithms/OptimizationAlgorithm.py", "        if self.FoM_goal is not None:\n            self.FoM_goal = ",
             "        if isinstance(self.FoM_goal, float):\n            self.FoM_goal = ")],
     demo="""
opt, fom = run(search(2, criteria={"max_eval": 60}, optimization_direction="maximization", FoM_goal=-1),
               lambda n, p, x: -1.0 - 0.01 * sum((a - 1.3) ** 2 for a in x) - (3.0 if n < 20 else -2.0))
k = next(i for i, v in enumerate(fom.values) if v >= -1)
if len(fom.values) != k + 1:
    fail("the goal was reached at evaluation %d, there were %d" % (k + 1, len(fom.values)))
"""),
dict(id="c09b", prop="C09", needs="a drift that makes the best worse before a compensation within a search",
     breaks="a periodic compensation lets the value of the best only improve",
     edits=[("gradientfreemethods/NelderMead.py", "fsim[i] = curr_best_fom/drift_comp_num_average",
             "fsim[i] = min(fsim[i], curr_best_fom/drift_comp_num_average)")],
     demo="""
import time as _t
clock = [1000.0]
_t.monotonic = lambda: clock[0]
def f(n, p, x):
    clock[0] += 5.0
    return 0.05 * n + sum((a - 1.3) ** 2 for a in x)
opt, fom = run(search(2, criteria={"max_eval": 40}, compensate_drift={"compensate_after_minutes": 1.0, "num_average": 2}), f)
pts = [tuple(c[1]) for c in fom.calls]
rep = [i for i in range(1, len(pts)) if pts[i] == pts[i - 1]]
if not rep:
    fail("nothing was measured again")
i = rep[-1]
mean = (fom.values[i] + fom.values[i - 1]) / 2
ok = [mean] + [v for v in fom.values[i + 1:]]
if results(opt)["Figure of merit"] < min(ok) - 1e-9:
    fail("the best is still %r after it was measured again as %r" % (results(opt)["Figure of merit"], mean))
"""),
dict(id="c18g", prop="C18", needs="two pulses with different amplitude variations",
     breaks="the search varies every pulse with the amplitude variation of the first one",
     edits=[("Controls.py", "sigma_variation_coefficients[pulse.control_parameters_list] = pulse.scale_coefficients",
             "sigma_variation_coefficients[pulse.control_parameters_list] = self.pulse_objs_list[0].scale_coefficients[0]")],
     demo="""
d = dcrab(si=1, pulses=2, criteria={"max_eval": 20})
d["pulses"][1]["amplitude_variation"] = 0.001
opt, fom = run(d, lambda n, p, x: 0.0)
move = max(np.max(np.abs(c[0][1] - fom.calls[0][0][1])) for c in fom.calls[:9])
if move > 0.01:
    fail("the second pulse varies by %g, its amplitude variation is 0.001" % move)
"""),
]
