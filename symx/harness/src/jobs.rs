//! Job registry, command line, JSON reports and replay files.
use serde_json::{json, Value};
use std::sync::atomic::AtomicU64;
use std::time::Duration;
use symcore::{explore, replay, Config, Input};

pub static HASH_SEED: AtomicU64 = AtomicU64::new(0);

pub type F = Box<dyn Fn() + Sync + Send>;

pub struct Job {
    pub prop: &'static str,
    pub name: String,
    /// runs only in the thorough tier
    pub thorough: bool,
    pub run: F,
    /// the same harness on a real field type, for replay (None: the same code
    /// with constants)
    pub real: Option<F>,
    pub functions: &'static [&'static str],
    pub bounds: String,
    /// panics of the code under test are violations
    pub panics: bool,
    /// relative cost estimate for scheduling
    pub cost: u32,
    pub query_timeout_s: u32,
    pub max_paths: u64,
    /// sizes of the first choices, explored as separate shards
    pub split: Vec<usize>,
}

impl Job {
    pub fn new(prop: &'static str, name: impl Into<String>, run: impl Fn() + Sync + Send + 'static) -> Job {
        Job {
            prop,
            name: name.into(),
            thorough: false,
            run: Box::new(run),
            real: None,
            functions: &[],
            bounds: String::new(),
            panics: true,
            cost: 1,
            query_timeout_s: 60,
            max_paths: u64::MAX,
            split: vec![],
        }
    }
    pub fn real(mut self, f: impl Fn() + Sync + Send + 'static) -> Job {
        self.real = Some(Box::new(f));
        self
    }
    pub fn thorough(mut self) -> Job {
        self.thorough = true;
        self
    }
    pub fn thorough_if(mut self, b: bool) -> Job {
        self.thorough |= b;
        self
    }
    pub fn functions(mut self, f: &'static [&'static str]) -> Job {
        self.functions = f;
        self
    }
    pub fn bounds(mut self, b: impl Into<String>) -> Job {
        self.bounds = b.into();
        self
    }
    pub fn no_panics(mut self) -> Job {
        self.panics = false;
        self
    }
    /// shard over the values of the first choices (each of the given size)
    pub fn split(mut self, n: &[usize]) -> Job {
        self.split = n.to_vec();
        self
    }
    pub fn query_timeout(mut self, s: u32) -> Job {
        self.query_timeout_s = s;
        self
    }
    pub fn cost(mut self, c: u32) -> Job {
        self.cost = c;
        self
    }
}

pub fn registry() -> Vec<Job> {
    let mut v = vec![];
    #[cfg(feature = "range")]
    crate::c_range::jobs(&mut v);
    #[cfg(feature = "expr")]
    crate::c_expr::jobs(&mut v);
    #[cfg(feature = "solve")]
    crate::c_solve::jobs(&mut v);
    #[cfg(feature = "solve")]
    crate::c_solve::jobs2(&mut v);
    #[cfg(feature = "opt")]
    crate::c_opt::jobs(&mut v);
    #[cfg(feature = "apc")]
    crate::c_apc::jobs(&mut v);
    #[cfg(feature = "ovm")]
    crate::c_ovm::jobs(&mut v);
    #[cfg(feature = "exec")]
    crate::c_exec::jobs(&mut v);
    #[cfg(feature = "conv")]
    crate::c_conv::jobs(&mut v);
    #[cfg(feature = "bld")]
    crate::c_build::jobs(&mut v);
    v
}

fn violation_json(job: &Job, v: &symcore::Violation) -> Value {
    json!({
        "property": job.prop,
        "job": job.name,
        "message": v.msg,
        "panic": v.is_panic,
        "choices": v.choices,
        "inputs": v.inputs.iter().map(|i| json!([i.name, i.value.to_string()])).collect::<Vec<_>>(),
    })
}

fn replay_both(job: &Job, inputs: &[Input], choices: &[usize]) -> Value {
    let r = replay(inputs, choices, &*job.run);
    let real = job.real.as_ref().map(|f| replay(inputs, choices, &**f));
    json!({
        "failed": r.failed,
        "aborted": r.aborted,
        "notes": r.notes,
        "real_failed": real.as_ref().map(|r| r.failed.clone()),
        "has_real": job.real.is_some(),
    })
}

pub fn main() {
    symcore::install_panic_hook();
    // keep rayon deterministic
    if std::env::var("RAYON_NUM_THREADS").is_err() {
        std::env::set_var("RAYON_NUM_THREADS", "1");
    }
    let args: Vec<String> = std::env::args().collect();
    let reg = registry();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for j in &reg {
                let mut shards: Vec<String> = vec![String::new()];
                for n in &j.split {
                    shards = shards
                        .iter()
                        .flat_map(|s| (0..*n).map(move |i| format!("{s}@{i}")))
                        .collect();
                }
                for s in shards {
                    println!(
                        "{}",
                        json!({"property": j.prop, "job": format!("{}{s}", j.name),
                           "thorough": j.thorough, "cost": j.cost, "bounds": j.bounds,
                           "functions": j.functions})
                    );
                }
            }
        }
        Some("run") => {
            let mut parts = args[2].split('@');
            let base = parts.next().unwrap().to_string();
            let force: Vec<usize> = parts.map(|p| p.parse().unwrap()).collect();
            let job = reg.iter().find(|j| j.name == base).expect("no such job");
            let deadline: u64 = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(300);
            let cfg = Config {
                deadline: Duration::from_secs(deadline),
                query_timeout_ms: (job.query_timeout_s * 1000).min(deadline as u32 * 1000),
                max_paths: job.max_paths,
                panic_is_violation: job.panics,
                reset_lits: std::env::var("SYMX_RESET").ok().and_then(|s| s.parse().ok()).unwrap_or(300),
                force,
                order_seed: args.get(4).map(|s| s.parse().unwrap()).unwrap_or(0),
                ..Config::default()
            };
            let r = explore(cfg, &*job.run);
            let mut out = json!({
                "property": job.prop, "job": args[2], "bounds": job.bounds,
                "functions": job.functions,
                "paths": r.paths, "pruned": r.aborted_paths, "limited": r.limit_paths,
                "limit_msgs": r.limit_msgs, "branches": r.branches, "checks": r.checks,
                "checks_trivial": r.checks_trivial, "queries": r.queries, "cache_hits": r.cache_hits, "hard_queries": r.hard_queries, "sat": r.sat,
                "unsat": r.unsat, "unknown": r.unknown, "undecided_checks": r.undecided_checks,
                "solver_s": r.solver_s, "wall_s": r.wall_s, "complete": r.complete,
                "covers": r.covers, "symbolic_inputs": r.sym_inputs_max, "terms": r.terms,
                "z3": symcore::z3_version(),
            });
            // validate the encoding: replay explored paths on concrete values
            let mut validated = 0;
            let mut samples = vec![];
            let mut bad = None;
            for (inp, ch) in &r.samples {
                let x = replay_both(job, inp, ch);
                let f = if job.real.is_some() { &x["real_failed"] } else { &x["failed"] };
                if x["failed"].is_null() && f.is_null() {
                    validated += 1;
                    if samples.len() < 2 {
                        samples.push(json!({"job": args[2], "choices": ch, "notes": x["notes"],
                            "inputs": inp.iter().map(|i| format!("{}={}", i.name, i.value)).collect::<Vec<_>>()}));
                    }
                } else if bad.is_none() {
                    bad = Some(symcore::Violation {
                        msg: f.as_str().or(x["failed"].as_str()).unwrap_or("").to_string(),
                        inputs: inp.clone(),
                        choices: ch.clone(),
                        is_panic: false,
                    });
                }
            }
            out["validated"] = json!(validated);
            out["samples"] = json!(samples);
            let viol = r.violation.clone().or(if job.panics { bad } else { None });
            if let Some(v) = &viol {
                let mut vj = violation_json(job, v);
                vj["replay"] = replay_both(job, &v.inputs, &v.choices);
                out["violation"] = vj;
            }
            println!("{out}");
        }
        Some("replay") => {
            let txt = std::fs::read_to_string(&args[2]).unwrap();
            let v: Value = serde_json::from_str(&txt).unwrap();
            let job = reg
                .iter()
                .find(|j| j.name == v["job"].as_str().unwrap())
                .expect("no such job");
            let inputs: Vec<Input> = v["inputs"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| Input {
                    name: x[0].as_str().unwrap().into(),
                    value: x[1].as_str().unwrap().parse().unwrap(),
                })
                .collect();
            let choices: Vec<usize> = v["choices"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| x.as_u64().unwrap() as usize)
                .collect();
            println!("{}", replay_both(job, &inputs, &choices));
        }
        _ => {
            eprintln!("usage: harness list | run JOB [DEADLINE] | replay FILE");
            std::process::exit(2);
        }
    }
}
