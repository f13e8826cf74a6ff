#!/usr/bin/env python3
"""Generates a crate of random component and system declarations which use the library's macros the
documented way, together with the harness' independent view of each of them (see harness/src/net.rs)."""
import os, random, sys

PLAIN = ["f64", "String", "Vec<f64>", "Option<f64>", "usize", "bool", "u8", "(f64, f64)", "[f64; 3]", "Option<String>", "Vec<u8>"]
COPY = ["f64", "usize", "bool", "u8", "Option<f64>", "(f64, f64)", "[f64; 3]", "char", "i64"]
HIST = ["f64", "usize", "bool", "String", "Vec<f64>", "Option<f64>", "Option<Vec<String>>", "(f64, u8)", "[f64; 3]", "char", "i64", "Box<f64>", "Vec<Vec<f64>>"]
WORDS = ["alpha", "beta", "gamma", "delta", "omega", "kappa", "sigma", "theta", "value", "total", "level", "mode", "phase", "index",
         "label", "notes", "extra", "limit", "ratio", "scale", "times", "stamp", "flag", "power", "work", "heat", "mass", "flow", "q", "c", "h",
         "temp", "dtemp", "len", "new", "push", "pop", "iter", "val", "dt", "states", "storage", "deriv", "time", "i", "x", "state_of_charge",
         "history_note", "solver", "walk_count", "t_reports", "r#type", "r#in"]


class Gen:
    def __init__(self, seed, nsys, nhist):
        self.r = random.Random(seed)
        self.nsys, self.nhist = nsys, nhist
        self.masses, self.reservoirs, self.conds = [], [], []
        self.src = []

    def words(self, n, avoid=()):
        w = [x for x in WORDS if x not in avoid]
        return self.r.sample(w, n)

    def derives(self, copy=False, hist=None, default=True, comp=False):
        """attribute lines, in one of the orders that a user may write them in"""
        r = self.r
        if hist:
            d = ["HistoryVec"] + (["Copy"] if copy else []) + (["Default"] if default else [])
            r.shuffle(d)
            lines = ["#[derive(%s)]" % ", ".join(d), "#[common_derives]"]
            if r.random() < 0.4:
                lines = ["#[derive(%s)]" % ", ".join(d[:1])] + (["#[derive(%s)]" % ", ".join(d[1:])] if d[1:] else []) + ["#[common_derives]"]
        else:
            d = ["HistoryMethods", "BareClone"] + (["Default"] if default else [])
            r.shuffle(d)
            lines = ["#[derive(%s)]" % ", ".join(d), "#[common_derives]"]
            if r.random() < 0.3:
                lines = ["#[derive(%s)]" % x for x in d] + ["#[common_derives]"]
        r.shuffle(lines)
        # derives which see helper attributes must come after attribute macros were applied or not: any order works
        return lines

    def const_of(self, ty):
        """a value which is not the type's default"""
        return {"f64": "7.25", "String": '"dflt".to_string()', "Vec<f64>": "vec![3.5, 1.5]", "Option<f64>": "Some(4.5)", "usize": "17",
                "bool": "true", "u8": "9", "(f64, f64)": "(1.5, 2.5)", "[f64; 3]": "[1.5, 2.5, 3.5]", "Option<String>": 'Some("d".to_string())',
                "Vec<u8>": "vec![1, 2]", "char": "'z'", "i64": "-4"}[ty]

    def state_type(self, name, first):
        """a Copy state struct with `first` fields (f64) and some others; returns its fields"""
        r = self.r
        avoid = set(first)
        extra = [(w, r.choice(COPY)) for w in self.words(r.randint(0, 2), avoid)]
        fields = [(f, "f64") for f in first] + extra
        r.shuffle(fields)
        # arrays, chars and tuples of Copy types implement Default, PartialOrd, serde for these sizes
        self.src.append("\n".join(self.derives(copy=True, hist=True)))
        self.src.append("pub struct %s {\n%s}\n" % (name, "".join("    %spub %s: %s,\n" % ("/// field\n    " if r.random() < 0.3 else "", f, t) for f, t in fields)))
        self.arb(name, fields)
        return fields

    def arb(self, name, fields):
        self.src.append("impl AnyRand for %s {\n    fn any_rand(r: &mut Rng) -> Self {\n        %s { %s }\n    }\n}\n" % (
            name, name, ", ".join("%s: AnyRand::any_rand(r)" % f for f, _ in fields)))
        self.src.append("impl HistState for %s {\n    type Hist = %sHistoryVec;\n    const NAME: &'static str = \"%s\";\n    const FIELDS: usize = %d;\n"
            "    fn h_new() -> Self::Hist { %sHistoryVec::new() }\n    fn h_push(h: &mut Self::Hist, v: Self) { h.push(v) }\n    fn h_pop(h: &mut Self::Hist) -> Option<Self> { h.pop() }\n"
            "    fn h_clear(h: &mut Self::Hist) { h.clear() }\n    fn h_len(h: &Self::Hist) -> usize { h.len() }\n    fn h_empty(h: &Self::Hist) -> bool { h.is_empty() }\n"
            "    fn h_cols(h: &Self::Hist) -> Vec<Vec<String>> { vec![%s] }\n"
            "    fn h_row(&self) -> Vec<String> { vec![%s] }\n}\n" % (
            name, name, name, len(fields), name,
            ", ".join("h.%s.iter().map(|x| format!(\"{:?}\", x)).collect()" % f for f, _ in fields),
            ", ".join("format!(\"{:?}\", self.%s)" % f for f, _ in fields)))
        self.hists.append(name)

    def default_impl(self, name, fields):
        """custom Default with values unlike the types' defaults"""
        self.src.append("impl Default for %s {\n    fn default() -> Self {\n        %s {\n%s        }\n    }\n}\n" % (
            name, name, "".join("            %s: %s,\n" % (f, v) for f, v in fields)))

    def component(self, kind, k):
        r = self.r
        name = {"mass": "GM", "res": "GR", "cond": "GC"}[kind] + str(k)
        st = name + "State"
        if kind == "cond":
            pot, dpot = r.choice(["q", "rate", "current", "mdot"]), None
            sfields = self.state_type(st, [pot])
        else:
            pot, dpot = r.choice([("x", "dx"), ("pressure", "dpressure"), ("volts", "dvolts"), ("temp", "dtemp")])
            sfields = self.state_type(st, [pot, dpot])
        par = {"mass": r.choice(["c", "cap", "inertia"]), "res": None, "cond": r.choice(["h", "g", "ua"])}[kind]
        extra = [(w, r.choice(PLAIN)) for w in self.words(r.randint(0, 3), {"c", "h", "cap", "g", "ua", "state", "history"})]
        fields = [("state", st), ("history", st + "HistoryVec")] + ([(par, "f64")] if par else []) + extra
        r.shuffle(fields)
        custom = r.random() < 0.5
        self.src.append("\n".join(self.derives(default=not custom)))
        vis = lambda: r.choice(["pub ", "pub ", "pub(crate) ", ""])
        self.src.append("pub struct %s {\n%s}\n" % (name, "".join("    %s%s: %s,\n" % (vis() if f not in ("state", "history") else "pub ", f, t) for f, t in fields)))
        if custom:
            vals = []
            for f, t in fields:
                if f == "state":
                    vals.append((f, st + " { %s }" % ", ".join("%s: %s" % (a, self.const_of(b)) for a, b in sfields)))
                elif f == "history":
                    vals.append((f, "Default::default()"))
                else:
                    vals.append((f, self.const_of(t)))
            self.default_impl(name, vals)
        if kind == "cond":
            self.src.append("impl Flow for %s {\n    fn flow(&self) -> f64 { self.state.%s }\n    fn set_flow(&mut self, p0: &dyn HasState, p1: &dyn HasState) { self.state.%s = self.%s * (p0.state() - p1.state()); }\n}\n" % (name, pot, pot, par))
            self.src.append("impl EdgeAcc for %s {\n    fn h(&self) -> f64 { self.%s }\n    fn set_h(&mut self, v: f64) { self.%s = v }\n    fn q(&self) -> f64 { self.state.%s }\n    fn set_q(&mut self, v: f64) { self.state.%s = v }\n    fn hq(&self) -> Vec<f64> { self.history.%s.clone() }\n}\n" % (name, par, par, pot, pot, pot))
        else:
            over = ""
            if r.random() < 0.5:
                over += "    fn step_deriv(&mut self, val: f64) { self.state.%s += val; }\n" % dpot
            if r.random() < 0.3:
                over += "    fn step_state(&mut self, val: f64) { self.state.%s += val; }\n" % pot
            setd = "self.state.%s = val;" % dpot if kind == "mass" else "let _ = val; self.state.%s = 0.0;" % dpot
            sto = "self." + par if par else "f64::INFINITY"
            self.src.append("impl HasState for %s {\n    fn state(&self) -> f64 { self.state.%s }\n    fn set_state(&mut self, val: f64) { self.state.%s = val; }\n    fn deriv(&self) -> f64 { self.state.%s }\n    fn set_deriv(&mut self, val: f64) { %s }\n%s    fn storage(&self) -> f64 { %s }\n}\n" % (name, pot, pot, dpot, setd, over, sto))
            self.src.append("impl NodeAcc for %s {\n    fn x(&self) -> f64 { self.state.%s }\n    fn set_x(&mut self, v: f64) { self.state.%s = v }\n    fn dx(&self) -> f64 { self.state.%s }\n    fn set_dx(&mut self, v: f64) { self.state.%s = v }\n    fn c(&self) -> f64 { %s }\n    fn set_c(&mut self, _v: f64) { %s }\n    fn hx(&self) -> Vec<f64> { self.history.%s.clone() }\n    fn hdx(&self) -> Vec<f64> { self.history.%s.clone() }\n}\n" % (
                name, pot, pot, dpot, dpot, sto, "self.%s = _v;" % par if par else "", pot, dpot))
        self.comp_impl(name, fields, sfields, st, [], [])
        {"mass": self.masses, "res": self.reservoirs, "cond": self.conds}[kind].append(name)

    def comp_impl(self, name, fields, sfields, st, saved, plain_comps, has_state=True):
        """the harness' model of a component"""
        own = has_state
        save = "".join("        self.history.%s.push(self.state.%s.clone());\n" % (f, f) for f, _ in sfields) if own else ""
        save += "".join("        Comp::model_save(&mut self.%s);\n" % f for f in saved)
        bare = []
        for f, t in fields:
            if f == "history" and own:
                bare.append("            history: %sHistoryVec { %s },\n" % (st, ", ".join("%s: vec![]" % a for a, _ in sfields)))
            elif f in saved:
                bare.append("            %s: Comp::model_bare(&self.%s),\n" % (f, f))
            else:
                bare.append("            %s: self.%s.clone(),\n" % (f, f))
        lens = "".join("        out.push((format!(\"{path}.%s\"), self.history.%s.len()));\n" % (f, f) for f, _ in sfields) if own else ""
        lens += "".join("        Comp::lens(&self.%s, &format!(\"{path}/%s\"), out);\n" % (f, f) for f in saved)
        scr = ""
        if own:
            scr += "        for _ in 0..rows {\n%s        }\n" % "".join("            self.history.%s.push(AnyRand::any_rand(r));\n" % f for f, _ in sfields)
            scr += "        self.state = AnyRand::any_rand(r);\n"
        for f, t in fields:
            if f in ("state", "history") and own:
                continue
            if f in saved:
                scr += "        Comp::scramble(&mut self.%s, r, rows);\n" % f
            elif f in plain_comps:
                scr += "        { let k = r.below(4); Comp::scramble(&mut self.%s, r, k); }\n" % f
            else:
                scr += "        self.%s = AnyRand::any_rand(r);\n" % f
        self.src.append("impl Comp for %s {\n    fn model_save(&mut self) {\n%s    }\n    fn model_bare(&self) -> Self {\n        %s {\n%s        }\n    }\n    fn real_bare(&self) -> Self { self.bare_clone() }\n    fn real_save(&mut self) { self.save_state() }\n"
            "    fn lens(&self, path: &str, out: &mut Vec<(String, usize)>) {\n        let _ = path;\n%s    }\n    fn scramble(&mut self, r: &mut Rng, rows: usize) {\n        let _ = rows;\n%s    }\n}\n" % (name, save, name, "".join(bare), lens, scr))

    def pack(self, k):
        """component with nested components; acts as a mass through its inner cell"""
        r = self.r
        name = "GP%d" % k
        own = r.random() < 0.6
        cell_t = r.choice(["ThermalMass"] + self.masses)
        fields = [("cell", cell_t)]
        saved = ["cell"]
        marks = {"cell": r.choice(["#[save_state]", "#[use_state]"])}
        plain_comps = []
        if r.random() < 0.7:
            fields.append(("link", r.choice(["Conductance"] + self.conds)))
            saved.append("link")
            marks["link"] = "#[save_state]"
        if r.random() < 0.6:
            fields.append(("spare", r.choice(["ThermalMass", "ThermalReservoir"] + self.masses)))
            plain_comps.append("spare")
        if r.random() < 0.4 and k > 0:
            fields.append(("deep", "GP%d" % (k - 1)))
            saved.append("deep")
            marks["deep"] = "#[save_state]"
        sfields, st = [], name + "State"
        if own:
            sfields = self.state_type(st, ["x", "dx"])
            fields += [("state", st), ("history", st + "HistoryVec")]
        fields += [(w, r.choice(PLAIN)) for w in self.words(r.randint(0, 2), {"state", "history"})]
        r.shuffle(fields)
        saved = [f for f, _ in fields if f in saved]
        self.src.append("\n".join(self.derives()))
        self.src.append("pub struct %s {\n%s}\n" % (name, "".join("    %spub %s: %s,\n" % (marks[f] + "\n    " if f in marks else "", f, t) for f, t in fields)))
        self.src.append("impl HasState for %s {\n    fn state(&self) -> f64 { HasState::state(&self.cell) }\n    fn set_state(&mut self, val: f64) { self.cell.set_state(val) }\n    fn deriv(&self) -> f64 { self.cell.deriv() }\n    fn set_deriv(&mut self, val: f64) { self.cell.set_deriv(val) }\n    fn storage(&self) -> f64 { HasState::storage(&self.cell) }\n}\n" % name)
        self.src.append("impl NodeAcc for %s {\n    fn x(&self) -> f64 { self.cell.x() }\n    fn set_x(&mut self, v: f64) { self.cell.set_x(v) }\n    fn dx(&self) -> f64 { self.cell.dx() }\n    fn set_dx(&mut self, v: f64) { self.cell.set_dx(v) }\n    fn c(&self) -> f64 { NodeAcc::c(&self.cell) }\n    fn set_c(&mut self, v: f64) { NodeAcc::set_c(&mut self.cell, v) }\n    fn hx(&self) -> Vec<f64> { self.cell.hx() }\n    fn hdx(&self) -> Vec<f64> { self.cell.hdx() }\n}\n" % name)
        self.comp_impl(name, fields, sfields, st, saved, plain_comps, own)
        self.packs.append(name)

    def histories(self):
        """state types for history containers which need not be Copy"""
        r = self.r
        for k in range(self.nhist):
            name = "GH%d" % k
            n = r.choice([1, 1, 2, 3, 4, 5, 7])
            fields = [(w, r.choice(HIST)) for w in self.words(n)]
            lines = ["#[derive(HistoryVec)]", "#[common_derives]"]
            r.shuffle(lines)
            self.src.append("\n".join(lines))
            self.src.append("pub struct %s {\n%s}\n" % (name, "".join("    pub %s: %s,\n" % f for f in fields)))
            self.arb(name, fields)

    def system(self, k, shape):
        """one system, its twin with some connections swapped, and its description"""
        r = self.r
        nn = {"small": r.randint(1, 3), "mid": r.randint(3, 6), "big": r.randint(8, 12), "huge": 24}[shape]
        nodes = []  # (name, type, kind, mark)
        names = ["n%d" % i for i in range(nn)]
        open_ = r.random() < 0.55
        for i in range(nn):
            kind = "mass"
            if open_ and i > 0 and (i == 1 or r.random() < 0.25):
                kind = r.choice(["fixed", "driven"])
            if kind == "mass":
                ty = r.choice(["ThermalMass", "ThermalMass"] + self.masses + self.packs)
                mark = "use"
            else:
                ty = r.choice(["ThermalReservoir"] + self.reservoirs)
                mark = r.choice(["use", "use", "save", "none"])
            nodes.append([names[i], ty, kind, mark])
        open_ = any(n[2] != "mass" for n in nodes)
        r.shuffle(nodes)
        names = [n[0] for n in nodes]
        edges = []
        for i in range(1, nn):
            if r.random() < 0.92:
                j = r.choice([i - 1, r.randrange(i)])
                edges.append((i, j))
        for _ in range(r.choice([0, 0, 1, 2, nn])):
            if nn > 1:
                a, b = r.sample(range(nn), 2)
                edges.append((a, b))
        if edges and r.random() < 0.5:
            edges.append(r.choice(edges))  # a parallel connection
            a, b = r.choice(edges)
            edges.append((b, a))
        edges = [(a, b) if r.random() < 0.5 else (b, a) for a, b in edges]
        r.shuffle(edges)
        ets = [("e%d" % i, r.choice(["Conductance"] + self.conds), r.choice(["save", "save", "save", "none"])) for i in range(len(edges))]
        acc = open_ and r.random() < 0.8
        driven = [i for i, n in enumerate(nodes) if n[2] == "driven"]
        # fields
        fields = [(n, t, m) for n, t, _, m in nodes] + [(n, t, m) for n, t, m in ets]
        if acc:
            fields.append(("acc", r.choice(["ThermalMass"] + self.masses), "use"))
        loose = []
        for i in range(r.choice([0, 0, 1, 2])):
            f = "loose%d" % i
            loose.append(f)
            fields.append((f, r.choice(["ThermalMass", "ThermalReservoir", "Conductance"] + self.masses + self.packs), r.choice(["none", "none", "save"])))
        plain = [(w, r.choice(PLAIN), "plain") for w in self.words(r.randint(0, 4), {"state", "history", "states", "solver"})]
        if driven:
            plain.append(("drive_p", "Vec<f64>", "plain"))
        fields += plain
        req = [("solver_type", "SolverTypes", "req"), ("t_report", "Vec<f64>", "req"), ("state", "SystemState", "req"), ("history", "SystemStateHistoryVec", "req")]
        style = r.random()
        if style < 0.4:
            fields = req[:1] + fields + req[1:]
        elif style < 0.6:
            r.shuffle(fields)
            fields = req[:1] + fields + req[1:]
        else:
            fields = fields + req
            r.shuffle(fields)
        idx = {n: i for i, n in enumerate(names)}
        node_list = list(names) + (["acc"] if acc else [])
        states = [f for f, t, m in fields if m == "use"]
        marked = [f for f, t, m in fields if m in ("use", "save")]
        compn = set(node_list) | {e[0] for e in ets} | set(loose)
        unmarked = [f for f, t, m in fields if m == "none" and f in compn]
        plains = [f for f, t, m in fields if m == "plain" and f != "drive_p"] + (["drive_p"] if driven else [])
        lname = "GS%d" % k
        for twin in (False, True):
            name = lname + ("T" if twin else "")
            ed = [(b, a) if twin and r.random() < 0.6 else (a, b) for a, b in edges]
            conn = ["(%s, %s, %s)" % (names[a], names[b], ets[i][0]) for i, (a, b) in enumerate(ed)]
            order = list(range(len(conn)))
            if twin and r.random() < 0.5:
                pass
            # split into several macro calls, in any order
            groups, rest = [], order[:]
            while rest:
                m = r.randint(1, len(rest)) if r.random() < 0.5 else len(rest)
                groups.append(rest[:m])
                rest = rest[m:]
            body = []
            pre = ["        self.reset_derivs();"]
            for i in driven:
                pre.append("        let t_now = self.state.time;\n        NodeAcc::set_x(&mut self.%s, drive(%d, t_now, &self.drive_p));" % (names[i], i))
            if r.random() < 0.5 and driven:
                pre = pre[1:] + pre[:1]
            body += pre
            mac = []
            for g in groups:
                c = ", ".join(conn[i] for i in g)
                mac.append(("connect", "        connect_states!(self, %s);" % c))
                mac.append(("update", "        update_derivs!(self, %s);" % c))
            if r.random() < 0.5:
                mac = [m for m in mac if m[0] == "connect"] + [m for m in mac if m[0] == "update"]
            body += [m[1] for m in mac]
            if acc:
                # flow received by masses from reservoirs
                s = []
                for i, (a, b) in enumerate(ed):
                    ka, kb = nodes[a][2] == "mass", nodes[b][2] == "mass"
                    if ka and not kb:
                        s.append("- self.%s.flow()" % ets[i][0])
                    elif kb and not ka:
                        s.append("+ self.%s.flow()" % ets[i][0])
                body.append("        let received = 0.0 %s;\n        self.acc.set_deriv(received);" % " ".join(s))
            if names:
                body.append("        let seen = self.states();\n        on_eval(self.state.time, &seen);")
            custom = r.random() < 0.4
            attrs = ["#[solver(\n    /// generated\n    fn update_derivs(&mut self) {\n%s\n    }\n)]" % "\n".join(body)]
            lines = self.derives(default=not custom)
            pyo3 = r.random() < 0.5
            if pyo3:
                attrs.append("#[pyo3_api]")
            r.shuffle(attrs)
            pos = r.randint(0, len(lines))
            lines = lines[:pos] + attrs + lines[pos:]
            src = []
            src.append("\n".join(lines))
            fsrc = ""
            for f, t, m in fields:
                at = {"use": "    #[use_state]\n", "save": "    #[save_state]\n"}.get(m, "")
                if r.random() < 0.2:
                    at = "    /// doc of %s\n" % f.replace("r#", "") + at
                if pyo3 and r.random() < 0.2:
                    at += "    #[skip_get]\n"
                fsrc += at + "    %s%s: %s,\n" % (r.choice(["pub ", "pub ", "pub(crate) ", ""]) if m in ("plain", "none") else "pub ", f, t)
            src.append("pub struct %s {\n%s}\n" % (name, fsrc))
            if custom:
                vals = []
                for f, t, m in fields:
                    if m == "plain":
                        vals.append((f, self.const_of(t)))
                    elif f == "t_report":
                        vals.append((f, "vec![0.5, 0.75]"))
                    elif f == "solver_type":
                        vals.append((f, "SolverTypes::MidpointMethod { dt: 0.375 }"))
                    elif f == "state":
                        vals.append((f, "SystemState { i: 3, time: 0.625 }"))
                    else:
                        vals.append((f, "Default::default()"))
                src.append("impl Default for %s {\n    fn default() -> Self {\n        %s {\n%s        }\n    }\n}\n" % (name, name, "".join("            %s: %s,\n" % v for v in vals)))
            kinds = {"mass": "Kind::Mass", "fixed": "Kind::Fixed"}
            info = "pub static INFO_%s: Info = Info {\n    name: \"%s\",\n    nodes: &[\n" % (name, name)
            for i, f in enumerate(node_list):
                kd = "Kind::Acc" if f == "acc" else kinds.get(nodes[i][2], "Kind::Driven(%d)" % i)
                stt = "Some(%d)" % states.index(f) if f in states else "None"
                info += "        NodeInfo { name: \"%s\", kind: %s, state: %s, saved: %s },\n" % (f, kd, stt, "true" if f in marked else "false")
            info += "    ],\n    edges: &[\n"
            for i, (a, b) in enumerate(ed):
                info += "        EdgeInfo { name: \"%s\", a: %d, b: %d, saved: %s },\n" % (ets[i][0], a, b, "true" if ets[i][0] in marked else "false")
            info += "    ],\n    states: &[%s],\n    open: %s,\n};\n" % (", ".join(str(node_list.index(f)) for f in states), "true" if open_ else "false")
            src.append(info)
            src.append("net_sys!(%s, INFO_%s,\n    nodes: [%s], edges: [%s], states: [%s],\n    marked: [%s], unmarked: [%s], plain: [%s],\n    drive: %s, %s);\n" % (
                name, name, ", ".join("%s %d" % (f, i) for i, f in enumerate(node_list)), ", ".join("%s %d" % (e[0], i) for i, e in enumerate(ets)),
                ", ".join("%s %d" % (f, i) for i, f in enumerate(states)), ", ".join(marked), ", ".join(unmarked), ", ".join(plains),
                "|s, n, t| drive(n, t, &s.drive_p)" if driven else "|_, _, _| unreachable!()", "|s, p| s.drive_p = p" if driven else "|_, _| ()"))
            self.mods.append((name, "\n".join(src)))
            if twin:
                self.twins.append((lname, name, [i for i in range(len(edges)) if ed[i] != edges[i]]))
        self.systems.append(lname)

    def build(self):
        self.hists, self.packs, self.mods, self.systems, self.twins = [], [], [], [], []
        for k in range(3):
            self.component("mass", k)
        for k in range(2):
            self.component("res", k)
        for k in range(2):
            self.component("cond", k)
        for k in range(3):
            self.pack(k)
        self.histories()
        shapes = ["small", "mid", "mid", "big", "mid", "small", "huge", "mid", "big", "mid"]
        for k in range(self.nsys):
            self.system(k, shapes[k % len(shapes)])


USES = """#![allow(unused, dead_code, non_snake_case, private_interfaces)]
use dess::prelude::*;
use dess_examples::components::*;
use dessmon::c_hist::HistState;
use dessmon::net::*;
use dessmon::net_sys;
use dessmon::rng::Rng;
use dessmon::sys::Ode;
use serde::{Deserialize, Serialize};
"""


def write(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, "w").write(text)


def generate(outdir, seed, nsys, nhist, verif):
    g = Gen(seed, nsys, nhist)
    g.build()
    os.makedirs(os.path.join(outdir, "src"), exist_ok=True)
    for f in os.listdir(os.path.join(outdir, "src")):
        if f.startswith("gs") or f == "comps.rs":
            os.unlink(os.path.join(outdir, "src", f))
    write(os.path.join(outdir, "src", "comps.rs"), USES.replace("#![allow", "#![allow") + "\n".join(g.src))
    main = "#![allow(unused)]\nmod comps;\n"
    for name, src in g.mods:
        write(os.path.join(outdir, "src", name.lower() + ".rs"), USES + "use crate::comps::*;\n" + src)
        main += "mod %s;\n" % name.lower()
    main += "use dessmon::net::NetSys;\nfn main() {\n    let systems: Vec<dessmon::net::Maker> = vec![\n"
    for s in g.systems:
        main += "        || Box::new(%s::%s::default()),\n" % (s.lower(), s)
    main += "    ];\n    let twins: Vec<dessmon::c_net::Twin> = vec![\n"
    for a, b, sw in g.twins:
        main += "        dessmon::c_net::Twin { a: || Box::new(%s::%s::default()), b: || Box::new(%s::%s::default()), swapped: &%s },\n" % (a.lower(), a, b.lower(), b, sw)
    main += "    ];\n    let hists: Vec<dessmon::c_hist::HistFn> = vec![\n"
    for h in g.hists:
        main += "        dessmon::c_hist::check::<comps::%s>,\n" % h
    main += "    ];\n    let serdes: Vec<dessmon::c_serde::SerdeFn> = vec![\n"
    for h in g.hists:
        main += "        dessmon::c_serde::hist::<comps::%s>,\n" % h
    for c in g.masses + g.reservoirs + g.conds + g.packs:
        main += "        dessmon::c_serde::comp::<comps::%s>,\n" % c
    main += "    ];\n    dessmon::run_main(dessmon::Gen { systems, twins, hists, serdes });\n}\n"
    write(os.path.join(outdir, "src", "main.rs"), main)
    write(os.path.join(outdir, "Cargo.toml"), """[package]
name = "dessgen"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
dess = { path = "/repo/dess" }
dess-examples = { path = "/repo/dess-examples" }
dessmon = { path = "%s/harness" }
serde = { version = "1", features = ["derive"] }

[profile.dev]
opt-level = 0
debug = "line-tables-only"
incremental = false
[profile.dev.package."*"]
opt-level = 1
overflow-checks = true
debug-assertions = true

[lints.rust]
unexpected_cfgs = "allow"
""" % verif)
    lock = os.path.join(verif, "harness", "Cargo.lock")
    text = open(lock).read()
    return g


if __name__ == "__main__":
    v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    generate(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), 6, v)
