"""Random programs which use the library's macros: valid ones, and ones with a single misuse and what the
compiler has to say about it.  Each program is one module source."""
import random

USES = "use dess::prelude::*;\nuse dess_examples::components::*;\nuse serde::{Deserialize, Serialize};\n"
# type -> (expression that is not the default, what json.loads of it gives)
PLAIN = {"f64": ("7.25", 7.25), "String": ('"text \\u{e9}".to_string()', "text \u00e9"), "Vec<f64>": ("vec![3.5, 1.5]", [3.5, 1.5]), "Option<f64>": ("Some(4.5)", 4.5),
         "usize": ("17", 17), "bool": ("true", True), "u8": ("9", 9), "i64": ("-4", -4), "(f64, f64)": ("(1.5, 2.5)", [1.5, 2.5]),
         "[f64; 3]": ("[1.5, 2.5, 3.5]", [1.5, 2.5, 3.5]), "Option<String>": ("None", None), "Vec<Vec<f64>>": ("vec![vec![1.5], vec![]]", [[1.5], []]),
         "Vec<u8>": ("vec![1, 2]", [1, 2]), "char": ("'z'", "z"), "Vec<String>": ('vec!["a".to_string()]', ["a"])}
COPY = ["f64", "usize", "bool", "u8", "Option<f64>", "(f64, f64)", "[f64; 3]", "char", "i64"]
WORDS = ["alpha", "beta", "gamma", "delta", "omega", "kappa", "value", "total", "level", "mode", "phase", "index", "label", "notes", "limit", "ratio",
         "times", "power", "work", "heat", "flow", "q", "temp", "len", "new", "push", "iter", "val", "dt", "states", "storage", "deriv", "i", "time_s", "get_it",
         "set_it", "solver", "walk_count", "walked", "defaults", "default_value", "history_note", "r#type", "r#in", "r#match", "py_", "class", "derivs_of", "x9"]
FREE_FNS = ["default_value", "defaults", "my_default", "default_py2", "update_it", "walk_fast", "value_of", "to_text", "len2", "reset", "init_state", "from_value"]
STD = ["default", "to_file", "from_file", "to_json", "from_json", "to_yaml", "from_yaml", "to_bincode", "from_bincode", "clone"]


def shuffled(r, xs):
    xs = list(xs)
    r.shuffle(xs)
    return xs


class Struct:
    """one struct declaration, kept in parts so that a misuse can be injected"""

    def __init__(self, name):
        self.name, self.derives, self.attrs, self.fields, self.after = name, [], [], [], []
        self.split = self.order = None
        self.keyword, self.head = "struct", "pub "
        self.solver = None  # body functions of the solver attribute (list of str)
        self.api = None     # functions of the pyo3_api attribute (list of (exposed name, str)), None: no attribute
        self.walk = False

    def text(self, r):
        lines = []
        d = shuffled(r, self.derives)
        if d and r.random() < 0.3 and len(d) > 1:
            lines += ["#[derive(%s)]" % d[0], "#[derive(%s)]" % ", ".join(d[1:])]
        elif d:
            lines.append("#[derive(%s)]" % ", ".join(d))
        lines += self.attrs
        if self.solver is not None:
            lines.append("#[solver]" if not self.solver and r.random() < 0.5 else "#[solver(\n%s)]" % "\n".join(self.solver))
        if self.api is not None:
            lines.append("#[pyo3_api(\n%s)]" % "\n".join(s for _, s in self.api) if self.api or r.random() < 0.3 else "#[pyo3_api]")
        r.shuffle(lines)
        if self.walk:
            # a helper attribute of `pyo3_api`: below it
            at = max(k for k, l in enumerate(lines) if l.startswith("#[pyo3_api")) + 1
            lines.insert(r.randint(at, len(lines)), "#[walk]")
        if r.random() < 0.4:
            lines.insert(r.randint(0, len(lines)), "/// documented")
        body = ""
        for f in self.fields:
            marks = shuffled(r, ["#[%s]" % m for m in f["marks"]] + (["/// a field"] if r.random() < 0.2 else []) + (["#[allow(dead_code)]"] if r.random() < 0.1 else []))
            body += "".join("    %s\n" % m for m in marks) + "    %s%s: %s,\n" % (f["vis"], f["name"], f["ty"])
        return "\n".join(lines) + "\n%s%s %s {\n%s}\n" % (self.head, self.keyword, self.name, body)


def field(name, ty, marks=(), vis="pub "):
    return {"name": name, "ty": ty, "marks": list(marks), "vis": vis}


class Program:
    def __init__(self, seed, name):
        self.r = random.Random(seed)
        self.name = name
        self.parts = []      # Struct or str
        self.classes = []    # (class, Struct, {field: json value} or None)
        self.build()

    def extras(self, n, types, avoid):
        return [field(w, self.r.choice(types), vis=self.r.choice(["pub ", "pub(crate) ", ""])) for w in self.r.sample([x for x in WORDS if x not in avoid], n)]

    def api_fns(self, st, cls_has_default):
        r = self.r
        fns = []
        names = r.sample(FREE_FNS, r.randint(0, 3))
        taken = {f["name"].replace("r#", "") for f in st.fields}
        for n in names:
            kind = r.randrange(4)
            if n in taken:
                continue
            if kind == 0:
                fns.append((n, "    /// an extra function\n    fn %s(&self) -> usize {\n        17\n    }\n" % n))
            elif kind == 1:
                fns.append((n, "    #[staticmethod]\n    fn %s(a: f64, b: Option<f64>) -> f64 {\n        a + b.unwrap_or(17.0)\n    }\n" % n))
            elif kind == 2:
                fns.append((n, "    #[pyo3(name = \"%s\")]\n    fn other_%s(&mut self) -> PyResult<usize> {\n        Ok(17)\n    }\n" % (n, n)))
            else:
                fns.append((n, "    #[classmethod]\n    fn %s(_cls: &PyType) -> Self {\n        Default::default()\n    }\n" % n))
        return fns

    def state_type(self, name, first):
        r = self.r
        s = Struct(name)
        s.derives, s.attrs = ["Copy", "HistoryVec", "Default"], ["#[common_derives]"]
        s.fields = shuffled(r, [field(f, "f64") for f in first] + self.extras(r.randint(0, 3), COPY, set(first)))
        for f in s.fields:
            f["vis"] = "pub "
        s.api = self.api_fns(s, True)
        self.parts.append(s)
        self.classes.append((name, s))
        return s

    def component(self, name, kind):
        r = self.r
        st = self.state_type(name + "State", ["q"] if kind == "cond" else ["x", "dx"])
        s = Struct(name)
        s.derives, s.attrs = ["HistoryMethods", "BareClone", "Default"], ["#[common_derives]"]
        s.fields = shuffled(r, [field("state", st.name), field("history", st.name + "HistoryVec"), field("par", "f64")] + self.extras(r.randint(0, 3), list(PLAIN), {"state", "history"}))
        s.api = self.api_fns(s, True)
        self.parts.append(s)
        self.classes.append((name, s))
        if kind == "cond":
            self.parts.append("impl Flow for %s {\n    fn flow(&self) -> f64 { self.state.q }\n    fn set_flow(&mut self, p0: &dyn HasState, p1: &dyn HasState) { self.state.q = self.par * (p0.state() - p1.state()); }\n}\n" % name)
        else:
            self.parts.append("impl HasState for %s {\n    fn state(&self) -> f64 { self.state.x }\n    fn set_state(&mut self, val: f64) { self.state.x = val; }\n    fn deriv(&self) -> f64 { self.state.dx }\n    fn set_deriv(&mut self, val: f64) { self.state.dx = val; }\n    fn storage(&self) -> f64 { 1.0 + self.par }\n}\n" % name)
        return s

    def build(self):
        r = self.r
        masses, conds = ["ThermalMass"], ["Conductance"]
        for k in range(r.randint(0, 2)):
            masses.append(self.component("Mass%d" % k, "mass").name)
        for k in range(r.randint(0, 1)):
            conds.append(self.component("Cond%d" % k, "cond").name)
        for k in range(r.randint(0, 1)):
            s = Struct("Log%d" % k)
            s.derives, s.attrs = ["HistoryVec", "Default"], ["#[common_derives]"]
            s.fields = self.extras(r.randint(1, 5), list(PLAIN), set())
            for f in s.fields:
                f["vis"] = "pub "
            s.api = self.api_fns(s, True)
            self.parts.append(s)
            self.classes.append((s.name, s))
        s = self.system = Struct("System")
        nn = r.choice([0, 1, 2, 3, 3, 4, 6, 30])
        nodes = ["n%d" % k for k in range(nn)]
        s.fields = [field(n, r.choice(masses), ["use_state"]) for n in nodes]
        links = []
        for k in range(1, nn):
            links.append((nodes[r.randrange(k)], nodes[k], "e%d" % (k - 1)))
            s.fields.append(field("e%d" % (k - 1), r.choice(conds), r.choice([["save_state"], ["save_state"], []])))
        if r.random() < 0.3:
            s.fields.append(field("other", r.choice(masses), r.choice([[], ["save_state"]])))
        s.fields += self.extras(r.choice([0, 1, 2, 5]), list(PLAIN), {"state", "history", "states", "solver"})
        s.fields += [field("solver_type", "SolverTypes", ["skip_get"]), field("t_report", "Vec<f64>"), field("state", "SystemState"), field("history", "SystemStateHistoryVec")]
        for f in s.fields:
            if f["ty"] in PLAIN and f["name"] not in ("t_report",) and r.random() < 0.2:
                f["marks"].append("skip_get")
        r.shuffle(s.fields)
        self.links, self.nodes = links, nodes
        body = ["        self.reset_derivs();"]
        calls = []
        rest = links[:]
        while rest:
            m = r.randint(1, len(rest))
            c = ", ".join("(%s, %s, %s)" % l for l in rest[:m])
            calls.append("        connect_states!(self, %s);\n        update_derivs!(self, %s);" % (c, c))
            rest = rest[m:]
        self.body = body + shuffled(r, calls)
        s.solver = ["    %sfn update_derivs(&mut self) {\n%s\n    }" % (r.choice(["", "/// doc\n    ", "#[inline]\n    ", "#[allow(unused)]\n    "]), "\n".join(self.body))]
        s.derives, s.attrs = ["HistoryMethods", "BareClone"], ["#[common_derives]"]
        s.api = self.api_fns(s, True)
        s.walk = r.random() < 0.6
        dflt = "impl Default for System {\n    fn default() -> Self {\n        System {\n"
        for f in s.fields:
            v = {"solver_type": "SolverTypes::RK4Fixed { dt: 0.5 }", "t_report": "vec![0.5, 1.0, 2.0]"}.get(f["name"]) or (PLAIN[f["ty"]][0] if f["ty"] in PLAIN else "Default::default()")
            dflt += "            %s: %s,\n" % (f["name"], v)
        self.dflt = dflt + "        }\n    }\n}\n"
        self.parts += [s, self.dflt]
        self.classes.append(("System", s))
        if r.random() < 0.5:
            # a component made of components, with or without a state of its own
            g = Struct("Group")
            g.derives, g.attrs = ["HistoryMethods", "BareClone", "Default"], ["#[common_derives]"]
            g.fields = [field("inner", r.choice(masses), [r.choice(["save_state", "use_state"])])] + self.extras(r.randint(0, 2), list(PLAIN), {"state", "history"})
            if r.random() < 0.5:
                g.fields.append(field("link", r.choice(conds), ["save_state"]))
            if r.random() < 0.4:
                st = self.state_type("GroupState", ["x"])
                g.fields += [field("state", st.name), field("history", st.name + "HistoryVec")]
            r.shuffle(g.fields)
            g.api = self.api_fns(g, True)
            self.parts.append(g)
            self.classes.append(("Group", g))
        self.parts.append(self.check_fn())

    def check_fn(self):
        """what the compiled program does"""
        n = len(self.nodes)
        saved = [f["name"] for f in self.system.fields if "use_state" in f["marks"] or "save_state" in f["marks"]]
        return ("pub fn check() {\n    let mut s = System::default();\n    assert_eq!(HasStates::states(&s).len(), %d);\n    s.walk();\n    assert_eq!(s.history.len(), 3);\n    assert_eq!(s.history.time, vec![0.5, 1.0, 2.0]);\n%s"
                "    s.save_state();\n    assert_eq!(s.history.len(), 4);\n    let b = s.bare_clone();\n    assert!(b.history.is_empty());\n    assert_eq!(b.state, s.state);\n}\n" % (
                    n, "".join("    assert_eq!(s.%s.history.len(), 3);\n" % f for f in saved)))

    def source(self, fmt_seed=0):
        r = random.Random("%s/%s" % (self.name, fmt_seed))
        out = [USES]
        self.spans = {}
        for p in self.parts:
            t = p if isinstance(p, str) else p.text(r)
            if not isinstance(p, str):
                line = "\n".join(out).count("\n") + 2
                self.spans[p.name] = (line, line + t.count("\n"))
            out.append(t)
        return "\n".join(out)

    def struct(self, name):
        return next(p for p in self.parts if isinstance(p, Struct) and p.name == name)

    def expected_api(self):
        """class -> (public attributes seen from Python, {attribute: value of the default})"""
        res = {}
        for name, s in self.classes:
            if s.api is None:
                continue
            getters = [f["name"].replace("r#", "") for f in s.fields if "skip_get" not in f["marks"]]
            fns = [n for n, _ in s.api] + (["walk"] if s.walk else [])
            vals = {}
            if name == "System":
                vals = {f["name"].replace("r#", ""): PLAIN[f["ty"]][1] for f in s.fields if f["ty"] in PLAIN and "skip_get" not in f["marks"] and f["name"] != "t_report"}
            res[name] = {"names": sorted(set(getters + fns + STD)), "values": vals, "plain": [f["name"].replace("r#", "") for f in s.fields if f["ty"] in PLAIN and "skip_get" not in f["marks"]],
                         "walk": s.walk, "fns": {n: "static" if "staticmethod" in t else "class" if "classmethod" in t else "self" for n, t in s.api}}
            if "HistoryVec" in s.derives:
                res[name + "HistoryVec"] = {"names": sorted(set([f["name"].replace("r#", "") for f in s.fields] + STD + ["len"])), "values": {}, "plain": [], "walk": False, "fns": {}}
        return res


class Misuse(Program):
    """a valid program with one misuse.  `want`: a pattern which one of the error messages has to match;
    None: rejection is enough."""
    KINDS = ["no_update_derivs", "extra_fn", "misnamed", "duplicate", "not_a_fn", "unparsable", "api_default", "api_not_a_fn", "api_unparsable", "no_state",
             "missing_field", "missing_history", "state_of_plain_field", "component_without_history", "wrong_item", "no_default", "wrong_signature",
             "walk_without_walk", "tuple_struct", "unknown_component", "no_flow", "no_has_state", "malformed_connection", "state_not_copy", "unknown_helper"]
    ONLY_PYO3 = {"walk_without_walk"}

    def __init__(self, seed, name, kind, number=0):
        self.kind, self.n_kind = kind, number
        super().__init__(seed, name)
        self.documented, self.where = False, None
        for _ in range(50):
            self.parts.pop()  # the run-time check
            if getattr(self, "m_" + kind)():
                return
            # this program has no place for it
            self.r = random.Random("%s+%s" % (seed, self.r.random()))
            self.parts, self.classes = [], []
            self.build()
        raise RuntimeError("no place for " + kind)

    def m_no_update_derivs(self):
        self.system.solver = []
        self.want, self.documented, self.where = "update_derivs", True, "System"
        return True

    def m_extra_fn(self):
        r = self.r
        n = r.choice(["helper", "walk_more", "update_deriv", "update_derivs2", "states", "reset_derivs", "step_time", "sc", "save_state", "euler", "Update", "update"])
        f = "    %sfn %s(&self%s) -> f64 {\n        0.0\n    }" % (r.choice(["", "pub ", "/// doc\n    "]), n, r.choice(["", ", a: f64"]))
        if r.random() < 0.3:
            # with exactly the signature of a method of the trait
            n, f = r.choice([("step_time", "    fn step_time(&mut self, dt: &f64) {\n        self.state.time += 2.0 * dt;\n    }"),
                             ("reset_derivs", "    fn reset_derivs(&mut self) {}"),
                             ("sc", "    fn sc(&self) -> Option<&AdaptiveSolverConfig> {\n        None\n    }")])
        self.system.solver.insert(self.n_kind % 2, f)
        if r.random() < 0.2:
            self.system.solver.append("    fn another(&self) {}")
        self.want, self.documented, self.where = r"\b%s\b" % n, True, "System"
        return True

    def m_misnamed(self):
        n = self.r.choice(["update_deriv", "Update_derivs", "update_derivs_", "_update_derivs", "updatederivs", "derivs", "step"])
        self.system.solver = [self.system.solver[0].replace("fn update_derivs", "fn " + n)]
        self.want, self.documented, self.where = r"\bupdate_derivs\b|\b%s\b" % n, True, "System"
        return True

    def m_duplicate(self):
        self.system.solver.append(self.r.choice([self.system.solver[0], "    fn update_derivs(&mut self) {}"]))
        self.want, self.documented, self.where = "update_derivs", True, "System"
        return True

    ITEMS = ["    const X: f64 = 1.0;", "    type T = f64;", "    const fn_: usize = 0;"]
    JUNK = ["    let x = 5;", "    update_derivs", "    \"text\"", "    struct S;", "    1 +", "    fn g(", "    fn (&self) {}", "    enum E {}", "    fn g(&self) -> {}", "    update_derivs = my_fn", "    use std::fmt;"]

    def m_not_a_fn(self):
        self.system.solver.insert(self.r.randint(0, 1), self.r.choice(self.ITEMS))
        self.want, self.documented, self.where = "(?i)function", True, "System"
        return True

    def m_unparsable(self):
        j = self.r.choice([j for j in self.JUNK if j.count("(") == j.count(")")])
        self.system.solver.insert(self.r.randint(0, 1), j)
        self.want, self.documented, self.where = "(?i)parse|expected", True, "System"
        return True

    def api_target(self):
        s = self.r.choice([s for _, s in self.classes])
        self.where = s.name
        return s

    def m_api_default(self):
        s, n = self.api_target(), self.r.choice(["default", "default_py"])
        sig = self.r.choice(["    #[staticmethod]\n    fn %s() -> f64 {\n        0.0\n    }", "    fn %s(&self) -> usize {\n        1\n    }", "    /// doc\n    #[classmethod]\n    fn %s(_cls: &PyType) -> PyResult<Self> {\n        Ok(Self::default())\n    }", "    #[new]\n    fn %s() -> Self {\n        Default::default()\n    }"])
        s.api.insert(self.r.randint(0, len(s.api)), (n, sig % n))
        self.want, self.documented = r"\b%s\b" % n, True
        return True

    def m_api_not_a_fn(self):
        s = self.api_target()
        s.api.insert(self.r.randint(0, len(s.api)), ("", self.r.choice(self.ITEMS)))
        self.want, self.documented = "(?i)function", True
        return True

    def m_api_unparsable(self):
        s = self.api_target()
        s.api.insert(self.r.randint(0, len(s.api)), ("", self.r.choice([j for j in self.JUNK if j.count("(") == j.count(")")])))
        self.want, self.documented = "(?i)parse|expected", True
        return True

    def m_no_state(self):
        s = Struct("Stateless")
        s.derives, s.attrs = shuffled(self.r, ["HistoryMethods", "Default"] + self.r.choice([[], ["BareClone"]])), ["#[common_derives]"]
        s.fields = self.r.sample([field("states", "f64"), field("history", "Vec<f64>"), field("state_", "f64"), field("mass", "ThermalMass"), field("my_state", "ThermalMassState"), field("save_state", "bool"), field("use_state", "bool")], self.r.randint(1, 4))
        self.parts.append(s)
        self.want, self.documented, self.where = "HistoryMethods", True, "Stateless"
        return True

    def drop(self, s, name):
        s.fields = [f for f in s.fields if f["name"] != name]
        if s is self.system:
            # nothing but the macros may need the field
            for k, p in enumerate(self.parts):
                if p is self.dflt:
                    self.parts[k] = "\n".join(l for l in p.split("\n") if not l.strip().startswith(name + ":"))
            self.system.solver = ["    fn update_derivs(&mut self) {}"]

    def m_missing_field(self):
        n = self.r.choice(["state", "t_report", "solver_type"])
        self.drop(self.system, n)
        self.want = r"\b%s\b" % n
        return True

    def m_missing_history(self):
        self.drop(self.system, "history")
        self.want = r"\bhistory\b"
        return True

    def m_state_of_plain_field(self):
        c = [f for f in self.system.fields if f["ty"] in PLAIN or f["name"] in ("state", "solver_type")]
        f = self.r.choice(c)
        f["marks"].append(self.r.choice(["use_state", "save_state"]))
        self.want = None
        return True

    def m_component_without_history(self):
        c = [s for _, s in self.classes if "HistoryMethods" in s.derives and s.name != "System" and any(f["name"] == "state" for f in s.fields)]
        if not c:
            return False
        self.drop(self.r.choice(c), "history")
        self.want = r"\bhistory\b"
        return True

    def m_wrong_item(self):
        r = self.r
        at = r.choice(["#[solver(fn update_derivs(&mut self) {})]", "#[derive(HistoryVec)]", "#[derive(HistoryMethods)]", "#[derive(BareClone)]", "#[pyo3_api]"])
        item = r.choice(["pub enum Wrong { A, B }", "pub union Wrong { a: f64, b: u64 }"] + (["pub fn wrong() {}", "pub trait Wrong {}", "pub mod wrong {}", "pub const WRONG: f64 = 1.0;"] if "derive" not in at else []))
        self.parts.append(at + "\n" + item + "\n")
        self.want = None
        return True

    def m_no_default(self):
        self.parts.append("#[derive(HistoryMethods, BareClone)]\n#[common_derives]\npub struct NoDefault {\n    pub state: ThermalMassState,\n    pub history: ThermalMassStateHistoryVec,\n}\n")
        self.want = "(?i)default"
        return True

    def m_wrong_signature(self):
        sig = self.r.choice(["(&self)", "(&mut self, dt: f64)", "()", "(self)", "(&mut self) -> f64"])
        b = " { 0.0 }" if "f64" in sig and "->" in sig else " {}"
        self.system.solver = ["    fn update_derivs%s%s" % (sig, b)]
        self.want = "update_derivs"
        return True

    def m_walk_without_walk(self):
        c = [s for _, s in self.classes if s.name != "System"]
        if not c:
            return False
        self.r.choice(c).walk = True
        self.want = r"\bwalk\b"
        return True

    def m_tuple_struct(self):
        at = self.r.choice(["#[derive(HistoryVec)]", "#[derive(HistoryMethods)]", "#[pyo3_api]", "#[derive(BareClone)]"])
        self.parts.append(at + "\npub struct Tuple(pub f64, pub f64);\n")
        self.want = None
        return True

    def inject_call(self, call):
        self.system.solver = [self.system.solver[0].replace("self.reset_derivs();", "self.reset_derivs();\n        " + call)]
        return True

    def m_unknown_component(self):
        if len(self.nodes) < 2:
            return False
        l = list(self.r.choice(self.links))
        l[self.r.randrange(3)] = "nowhere"
        self.want = "nowhere"
        return self.inject_call("%s!(self, (%s));" % (self.r.choice(["connect_states", "update_derivs"]), ", ".join(l)))

    def m_no_flow(self):
        if len(self.nodes) < 3:
            return False
        self.want = r"\bset_flow\b|\bflow\b|\bFlow\b"
        return self.inject_call("%s!(self, (%s, %s, %s));" % (self.r.choice(["connect_states", "update_derivs"]), self.nodes[0], self.nodes[1], self.nodes[2]))

    def m_no_has_state(self):
        if len(self.nodes) < 2:
            return False
        l = self.links[0]
        self.want = None
        return self.inject_call("%s!(self, (%s, %s, %s));" % (self.r.choice(["connect_states", "update_derivs"]), l[2], l[1], l[2]))

    def m_malformed_connection(self):
        if len(self.nodes) < 2:
            return False
        a, b, c = self.links[0]
        m = self.r.choice(["connect_states", "update_derivs"])
        self.want = None
        return self.inject_call(m + "!(" + self.r.choice(["self", "self,", "self, (%s, %s)" % (a, b), "self, %s, %s, %s" % (a, b, c), "self, (%s, %s, %s, %s)" % (a, b, c, c), "(%s, %s, %s)" % (a, b, c), "", "self, (%s %s %s)" % (a, b, c),
                                                "self, ()", "self; (%s, %s, %s)" % (a, b, c)]) + ");")

    def m_state_not_copy(self):
        c = [s for s in (s for _, s in self.classes) if "Copy" in s.derives and s.name != "GroupState"]
        if not c:
            return False
        self.r.choice(c).derives.remove("Copy")
        self.want = "(?i)copy|move"
        return True

    def m_unknown_helper(self):
        s = self.r.choice([s for _, s in self.classes if "HistoryMethods" in s.derives])
        h = self.r.choice(["use_states", "save_states", "skip_getter", "useState", "walk"]) if s.api is None else self.r.choice(["use_states", "save_states", "skip_getter", "useState"])
        self.r.choice(s.fields)["marks"].append(h)
        self.want = r"\b%s\b" % h
        return True
