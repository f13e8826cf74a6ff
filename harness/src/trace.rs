//! Thread-local record of right-hand-side evaluations, written at the user boundary:
//! the harness' own systems call [eval] from their user-defined `update_derivs`.
use std::cell::RefCell;

#[derive(Default)]
pub struct Trace {
    pub on: bool,
    pub evals: Vec<(f64, Vec<f64>)>,
    pub count: u64,
    pub budget: u64,
}

thread_local! {
    static TRACE: RefCell<Trace> = RefCell::new(Trace::default());
}

pub const BUDGET_MSG: &str = "RHS-EVALUATION-BUDGET-EXCEEDED";

type Nested = (u64, u64, Box<dyn FnMut()>);
thread_local! {
    static NESTED: RefCell<Option<Nested>> = const { RefCell::new(None) };
}
/// runs `f` within every `every`-th evaluation, at most `times` times
pub fn set_nested(every: u64, times: u64, f: Box<dyn FnMut()>) {
    NESTED.with(|n| *n.borrow_mut() = Some((every, times, f)));
}
pub fn clear_nested() {
    NESTED.with(|n| *n.borrow_mut() = None);
}

pub fn reset() {
    clear_nested();
    TRACE.with(|t| *t.borrow_mut() = Trace::default());
}
/// start recording (t, y) of each evaluation
pub fn record() {
    TRACE.with(|t| {
        let mut t = t.borrow_mut();
        t.on = true;
        t.evals.clear();
    });
}
/// take what was recorded and stop recording
pub fn take() -> Vec<(f64, Vec<f64>)> {
    TRACE.with(|t| {
        let mut t = t.borrow_mut();
        t.on = false;
        std::mem::take(&mut t.evals)
    })
}
pub fn set_budget(n: u64) {
    TRACE.with(|t| {
        let mut t = t.borrow_mut();
        t.budget = n;
        t.count = 0;
    });
}
pub fn count() -> u64 {
    TRACE.with(|t| t.borrow().count)
}
pub fn eval(time: f64, y: &[f64]) {
    // taken out while it runs, so that its own evaluations are ordinary ones
    let due = NESTED.with(|n| {
        let mut n = n.borrow_mut();
        let count = TRACE.with(|t| t.borrow().count);
        match &*n {
            Some((every, times, _)) if *times > 0 && count % every == 0 => n.take(),
            _ => None,
        }
    });
    if let Some((every, times, mut f)) = due {
        let saved = TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()));
        f();
        TRACE.with(|t| *t.borrow_mut() = saved);
        NESTED.with(|n| *n.borrow_mut() = Some((every, times - 1, f)));
    }
    let over = TRACE.with(|t| {
        let mut t = t.borrow_mut();
        t.count += 1;
        if t.on {
            t.evals.push((time, y.to_vec()));
        }
        t.budget > 0 && t.count > t.budget
    });
    if over {
        panic!("{}", BUDGET_MSG);
    }
}
