pub mod alloc;
pub mod c_ex;
pub mod c_help;
pub mod c_hist;
pub mod c_mem;
pub mod c_net;
pub mod c_num;
pub mod c_py;
pub mod c_run;
pub mod c_serde;
pub mod ctx;
pub mod net;
pub mod rk;
pub mod rng;
pub mod sys;
pub mod trace;
pub mod watch;

/// what a generated crate contributes
#[derive(Default)]
pub struct Gen {
    pub systems: Vec<net::Maker>,
    pub twins: Vec<c_net::Twin>,
    pub hists: Vec<c_hist::HistFn>,
    pub serdes: Vec<c_serde::SerdeFn>,
}

const RULES: &[(&str, &str)] = &[
    ("C01", "random right-hand sides (7 smooth families, non-linear and time-dependent), dimensions 1..17, start times, states and step sizes; each solver step is compared with an independent tableau interpreter; a case is distinct by its full input"),
    ("C02", "analytic problems x step-size or tolerance sequences; observed order / error bound against the exact solution; distinct by problem parameters"),
    ("C03", "random report grids x solver x problem walked or driven by hand; the recorded rows are checked; distinct by full input"),
    ("C04", "random grids and step sizes; all right-hand-side evaluation times of each report interval are checked against the expected step sequence; distinct by full input"),
    ("C05", "random adaptive runs; every accepted step and every rejected attempt is re-evaluated by the oracle; distinct by full input"),
    ("C06", "random adaptive runs; each trial step and stored next step is compared with the rule applied to the recorded errors; distinct by full input"),
    ("C07", "random adaptive runs under all four save-flag combinations; every record is re-derived by the oracle; distinct by full input"),
    ("C08", "random walks of harness-defined, shipped and generated systems; every flow and derivative of every row is recomputed from the same row; distinct by full input"),
    ("C09", "random walks of generated and shipped networks; stored quantity per connected part, potential range, relaxation to the weighted mean, boundary balance; distinct by full input"),
    ("C10", "random walks of generated networks with fixed and prescribed reservoirs; reservoir values bitwise / against the prescription, masses re-integrated with stage-time values; distinct by full input"),
    ("C11", "random parameters and potentials on generated and shipped networks; flows and derivatives recomputed from direct field access, twins with swapped connections compared; distinct by parameters"),
    ("C12", "random contents of generated and shipped systems; each derived method against a model built with direct field access only; distinct by declaration and values"),
    ("C13", "random operation sequences on shipped and generated history containers against a list model; distinct by type and sequence"),
    ("C14", "random reachable contents of generated and shipped systems; bare clones against an independently written model; distinct by system contents"),
    ("C15", "random reachable contents of generated and shipped systems; save_state against an independently written model; distinct by system contents"),
    ("C16", "random finite contents (hostile floats and strings included) of every shipped and generated type, and systems at random points of random runs, through JSON, YAML, bincode and files; distinct by contents"),
    ("C17", "prefixes, mutations, structure bombs and arbitrary bytes for every shipped and generated type in every format; file names with unsupported suffixes, impossible destinations, full device and writes cut short; distinct by data"),
    ("C18", "random runs of every solver on harness-defined, shipped and generated systems, stopped at random sets of report times in both ways, restored in every way and resumed; distinct by system and stops"),
    ("C19", "random runs repeated, interleaved step by step, nested in each other's evaluations, on eight threads and in other processes; distinct by system and schedule"),
    ("C20", "hostile right-hand sides and tolerances with counted evaluations; distinct by full input"),
    ("C25", "random operation sequences over the whole safe interface (systems, histories, hostile data, wrong-length vectors, threads, panicking user code, files), each repeated with the live heap measured, and run under sanitizers and Miri; distinct by operation sequence"),
    ("C23", "random and hostile arguments of linspace, diff, almost_eq (also exactly on its limits), zip! and time_it!; distinct by arguments"),
];

pub fn run_main(gen: Gen) {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    if prop == "golden" {
        c_serde::write_golden(&args[2]);
        return;
    }
    ctx::silence_panics();
    if prop == "__runs" {
        let mut systems = net::shipped();
        systems.extend(gen.systems.iter().cloned());
        return c_run::child_runs(&args[2..], &systems);
    }
    if prop == "__ex" {
        return c_ex::run(&args[2..]);
    }
    if prop == "__exref" {
        return c_ex::reference(&args[2..]);
    }
    if prop == "__pyref" {
        return c_py::pyref(&args[2..]);
    }
    let mut ctx = ctx::Ctx::new(&prop);
    match RULES.iter().find(|r| r.0 == prop) {
        Some(r) => ctx.rule = r.1.into(),
        None => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
    let mut systems = net::shipped();
    systems.extend(gen.systems.iter().cloned());
    // shipped systems alone would leave some checks without subjects
    match prop.as_str() {
        "C01" => c_num::c01(&ctx),
        "C02" => c_num::c02(&ctx),
        "C03" => c_num::c03(&ctx),
        "C04" => c_num::c04(&ctx),
        "C05" => c_num::c05(&ctx),
        "C06" => c_num::c06(&ctx),
        "C07" => c_num::c07(&ctx),
        "C08" => c_net::c08(&ctx, &systems),
        "C09" => c_net::c09(&ctx, &systems),
        "C10" => c_net::c10(&ctx, &systems),
        "C11" => c_net::c11(&ctx, &systems, &gen.twins),
        "C12" => c_net::c12(&ctx, &systems),
        "C13" => c_hist::c13(&ctx, &gen.hists),
        "C14" => c_net::c14(&ctx, &systems),
        "C15" => c_net::c15(&ctx, &systems),
        "C16" => c_serde::c16(&ctx, &systems, &gen.serdes),
        "C17" => c_serde::c17(&ctx, &systems, &gen.serdes),
        "C18" => c_run::c18(&ctx, &systems),
        "C19" => c_run::c19(&ctx, &systems),
        "C20" => c_run::c20(&ctx, &systems),
        "C25" => c_mem::c25(&ctx, &systems, &gen),
        "C23" => c_help::c23(&ctx),
        _ => unreachable!(),
    }
    std::process::exit(ctx.finish());
}
