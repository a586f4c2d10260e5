//! Replays the histories of spec/LazyGen.tla into `util::lazy::LazyCell`.
//! A history is a line `action handle action handle ..`.
use std::cell::{Cell, Ref};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use validate_btc_header::util::lazy::LazyCell;

/// a cell whose computation is a closure of type F
fn history<F: FnOnce() -> i64 + Clone + 'static>(acts: &[(String, usize)], calls: Rc<Cell<i64>>, make: impl Fn() -> LazyCell<i64, F>) -> Vec<(i64, i64)> {
    let mut h: Vec<Option<*mut LazyCell<i64, F>>> = vec![None; 8];
    let mut looks: Vec<Option<Ref<'static, i64>>> = vec![];
    let mut first = 0;
    let mut out = vec![];
    for (a, i) in acts {
        let get = |h: &Vec<Option<*mut LazyCell<i64, F>>>| -> &'static LazyCell<i64, F> { unsafe { &*h[*i].unwrap() } };
        let r = catch_unwind(AssertUnwindSafe(|| -> i64 {
            match a.as_str() {
                "lazy" | "value" | "fails" => {
                    h[1] = Some(Box::into_raw(Box::new(make())));
                    -1
                }
                "clone" => {
                    let c = get(&h).clone();
                    let n = (1..8).find(|k| h[*k].is_none()).unwrap();
                    h[n] = Some(Box::into_raw(Box::new(c)));
                    -1
                }
                "drop" => {
                    // no look through this handle is kept
                    unsafe { drop(Box::from_raw(h[*i].unwrap())) };
                    h[*i] = None;
                    -1
                }
                "look" => {
                    looks.push(None);
                    let g = get(&h).borrow();
                    let v = *g;
                    *looks.last_mut().unwrap() = Some(g);
                    v
                }
                "glance" => *get(&h).borrow(),
                "away" => {
                    looks[first] = None;
                    first += 1;
                    -1
                }
                o => panic!("action {}", o),
            }
        }));
        // a value that does not come is -1, one that should not is what it is
        out.push((calls.get(), r.unwrap_or(-1)));
    }
    looks.clear();
    for p in h.into_iter().flatten() {
        unsafe { drop(Box::from_raw(p)) };
    }
    out
}

fn run(acts: &[(String, usize)]) -> Vec<(i64, i64)> {
    let calls = Rc::new(Cell::new(0));
    let c = calls.clone();
    let fails = acts[0].0 == "fails";
    let f = move || {
        c.set(c.get() + 1);
        if fails {
            panic!("the computation fails");
        }
        c.get()
    };
    if acts[0].0 == "value" {
        fn from<F: FnOnce() -> i64>(_: &F) -> LazyCell<i64, F> {
            LazyCell::from(100)
        }
        history(acts, calls, move || from(&f))
    } else {
        history(acts, calls, move || LazyCell::new(f.clone()))
    }
}

pub fn execute(text: &str) -> Vec<String> {
    let mut out = vec![];
    for l in text.lines() {
        let t: Vec<&str> = l.split_whitespace().collect();
        let acts: Vec<(String, usize)> = t.chunks(2).map(|p| (p[0].to_string(), p[1].parse().unwrap())).collect();
        let r = run(&acts);
        let j = |v: Vec<String>| format!("[{}]", v.join(","));
        out.push(format!(
            "{{\"a\":{},\"h\":{},\"c\":{},\"v\":{}}}",
            j(acts.iter().map(|x| format!("\"{}\"", x.0)).collect()),
            j(acts.iter().map(|x| x.1.to_string()).collect()),
            j(r.iter().map(|x| x.0.to_string()).collect()),
            j(r.iter().map(|x| x.1.to_string()).collect())
        ));
    }
    out
}
