//! subcommands with which C24 drives the run functions of the examples
use dess::prelude::*;
use dess_examples::three_thermal_mass_sys as tm;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys as bc;

/// `__ex NAME`: calls one run function the way a user's program does
pub fn run(args: &[String]) {
    match args[0].as_str() {
        "tm" => tm::run_three_tm_sys(false),
        "tm_overwrite" => tm::run_three_tm_sys(true),
        "bc" => bc::run_three_tm_w_bc_sys(),
        "base" => dess_examples::tests::euler_three_thermal_mass_sys::baseline_three_tm_sys(false),
        "base_bc" => dess_examples::tests::euler_three_thrml_mass_w_bc_sys::baseline_three_tm_w_bc_sys(false),
        _ => std::process::exit(2),
    }
}

fn kind(s: &SolverTypes) -> &'static str {
    match s {
        SolverTypes::EulerFixed { .. } => "euler",
        SolverTypes::HeunsMethod { .. } => "heuns",
        SolverTypes::MidpointMethod { .. } => "midpoint",
        SolverTypes::RalstonsMethod { .. } => "ralstons",
        SolverTypes::RK23BogackiShampine(_) => "rk23",
        SolverTypes::RK4Fixed { .. } => "rk4",
        SolverTypes::RK45CashKarp(_) => "rk45",
    }
}

/// `__exref NEW_DIR OLD_DIR`: one line per benchmark file, "ok NAME" or "bad NAME why"
pub fn reference(args: &[String]) {
    let fresh: Vec<(&str, System3TM)> = vec![
        ("euler", tm::mock_euler_sys()),
        ("heuns", tm::mock_heuns_sys()),
        ("midpoint", tm::mock_midpoint_sys()),
        ("ralstons", tm::mock_ralstons_sys()),
        ("rk23", tm::mock_rk23_sys()),
        ("rk4", tm::mock_rk4fixed_sys()),
        ("rk45", tm::mock_rk45_sys()),
    ];
    for (name, mut sys) in fresh {
        let file = format!("{} benchmark.yaml", name);
        let look = || -> Result<(), String> {
            let got = System3TM::from_file(&format!("{}/{file}", args[0])).map_err(|e| format!("does not read back: {e}"))?;
            let old = System3TM::from_file(&format!("{}/{file}", args[1])).map_err(|e| format!("the committed file does not read: {e}"))?;
            if kind(&got.solver_type) != name {
                return Err(format!("was computed by the solver {}", kind(&got.solver_type)));
            }
            if got.t_report != old.t_report {
                return Err(format!("has the report times {:?}.. of {}", &got.t_report[..2.min(got.t_report.len())], got.t_report.len()));
            }
            if got.history.len() != got.t_report.iter().filter(|t| **t > 0.0).count() + (got.t_report[0] == 0.0) as usize {
                return Err(format!("holds {} rows of {} report times: not a complete run", got.history.len(), got.t_report.len()));
            }
            sys.walk();
            if got != sys {
                return Err("differs from a fresh run of its solver".into());
            }
            // the committed benchmarks are what the values were when released
            for (a, b) in [(&got.m1, &old.m1), (&got.m2, &old.m2), (&got.m3, &old.m3)] {
                if a.history.temp.len() != b.history.temp.len() || a.history.temp.iter().zip(&b.history.temp).any(|(x, y)| (x - y).abs() > 1e-2) {
                    return Err("is far from the released benchmark".into());
                }
            }
            Ok(())
        };
        let mut look = look;
        match look() {
            Ok(()) => println!("ok {name}"),
            Err(e) => println!("bad {name} {e}"),
        }
    }
    for (name, with_bc) in [("euler_baseline.yaml", false), ("euler_w_bc_baseline.yaml", true)] {
        let read = |dir: &str| -> Result<Vec<Vec<f64>>, String> {
            let p = format!("{dir}/{name}");
            if with_bc {
                let s = bc::System3TMWithBC::from_file(&p).map_err(|e| format!("does not read back: {e}"))?;
                Ok(vec![s.t_report, s.history.time, s.m1.history.temp, s.m2.history.temp, s.m3.history.temp])
            } else {
                let s = System3TM::from_file(&p).map_err(|e| format!("does not read back: {e}"))?;
                Ok(vec![s.t_report, s.history.time, s.m1.history.temp, s.m2.history.temp, s.m3.history.temp])
            }
        };
        match (read(&args[0]), read(&args[1])) {
            (Ok(a), Ok(b)) => {
                let near = a.iter().zip(&b).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(x, y)| (x - y).abs() < 1e-6));
                println!("{} {name}{}", if near { "ok" } else { "bad" }, if near { "" } else { " is far from the released baseline" });
            }
            (Err(e), _) => println!("bad {name} {e}"),
            (_, Err(e)) => println!("bad {name} the committed file {e}"),
        }
    }
}
