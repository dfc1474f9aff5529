// Parser of the sidecar contract files (/verif/contracts/*.vc).
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct LoopC {
    pub kind: String,
    pub iter: Option<String>,
    pub inv: String,
    pub entry: String,
    pub end: String,
    pub before: String,
    pub after: String,
}

#[derive(Default, Clone, Debug)]
pub struct ClosureC {
    pub header: String, // "|a: T| -> (r: U)"
    pub spec: String,
    pub entry: String,
}

#[derive(Default, Clone, Debug)]
pub struct FnC {
    pub key: String,
    pub params: Vec<String>,
    pub ret: Option<String>,
    pub flags: Vec<String>,
    pub spec: String,
    pub entry: String,
    pub exit: String,
    pub loops: BTreeMap<usize, LoopC>,
    pub closures: BTreeMap<usize, ClosureC>,
    pub locals: Vec<String>,
    pub at: Vec<(String, String)>,
    pub ghost_args: Vec<(String, String)>,
    pub ghost_params: String,
    pub attrs: String,
}

impl FnC {
    pub fn flag(&self, f: &str) -> bool {
        // a contract that speaks of the world needs it even where the body has stopped using it
        f == "world" && self.mentions_world() || self.flags.iter().any(|x| x == f)
    }
    fn mentions_world(&self) -> bool {
        [&self.spec, &self.entry, &self.exit].iter().any(|t| t.contains("vp_w")) || self.at.iter().any(|(_, t)| t.contains("vp_w"))
    }
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnC>,
    pub preludes: BTreeMap<String, String>,
    pub types: BTreeMap<String, String>,
    pub traits: BTreeMap<String, String>,
    pub impls: BTreeMap<String, String>,
    pub extra_top: String,
}

fn parse_header(rest: &str) -> (String, Vec<String>, Option<String>, Vec<String>) {
    // key(params) -> ret ; flags
    let (sig, flags) = match rest.find(';') {
        Some(i) => (&rest[..i], rest[i + 1..].split_whitespace().map(|s| s.to_string()).collect()),
        None => (rest, vec![]),
    };
    let (sig, ret) = match sig.find("->") {
        Some(i) => (&sig[..i], Some(sig[i + 2..].trim().to_string())),
        None => (sig, None),
    };
    let sig = sig.trim();
    let (key, params) = match sig.find('(') {
        Some(i) => (
            sig[..i].trim().to_string(),
            sig[i + 1..sig.rfind(')').unwrap()]
                .split(',')
                .map(|s| s.trim().to_string())
                .filter(|s| !s.is_empty())
                .collect(),
        ),
        None => (sig.to_string(), vec![]),
    };
    (key, params, ret, flags)
}

pub fn parse(text: &str, c: &mut Contracts) {
    let mut module = String::new();
    let mut cur_fn: Option<String> = None;
    #[derive(Clone)]
    enum Sink {
        None,
        Prelude,
        Type(String),
        Trait(String),
        Impl(String),
        Spec,
        Entry,
        Exit,
        LoopInv(usize),
        LoopEntry(usize),
        LoopEnd(usize),
        LoopBefore(usize),
        LoopAfter(usize),
        Closure(usize),
        ClosureEntry(usize),
        At(usize),
        Top,
    }
    let mut sink = Sink::None;
    for line in text.lines() {
        if let Some(d) = line.trim_start().strip_prefix("//@") {
            let d = d.trim();
            let (word, rest) = match d.find(char::is_whitespace) {
                Some(i) => (&d[..i], d[i..].trim()),
                None => (d, ""),
            };
            let f = |c: &mut Contracts, k: &Option<String>| -> *mut FnC {
                c.fns.get_mut(k.as_ref().expect("no fn")).unwrap() as *mut FnC
            };
            macro_rules! cf {
                () => {
                    unsafe { &mut *f(c, &cur_fn) }
                };
            }
            match word {
                "module" => {
                    module = rest.to_string();
                    sink = Sink::None
                }
                "top" => sink = Sink::Top,
                "prelude" => sink = Sink::Prelude,
                "type" => sink = Sink::Type(format!("{module}::{rest}")),
                "trait" => sink = Sink::Trait(format!("{module}::{rest}")),
                "impl" => sink = Sink::Impl(format!("{module}::{rest}")),
                "fn" => {
                    let (key, params, ret, flags) = parse_header(rest);
                    let key = format!("{module}::{key}");
                    c.fns.insert(
                        key.clone(),
                        FnC { key: key.clone(), params, ret, flags, ..Default::default() },
                    );
                    cur_fn = Some(key);
                    sink = Sink::Spec;
                }
                "attr" => {
                    cf!().attrs.push_str(rest);
                    cf!().attrs.push('\n');
                }
                "locals" => cf!().locals = rest.split_whitespace().map(|s| s.to_string()).collect(),
                "ghost_params" => cf!().ghost_params = rest.to_string(),
                "ghost_arg" => {
                    let i = rest.find(':').unwrap();
                    cf!().ghost_args.push((rest[..i].trim().to_string(), rest[i + 1..].trim().to_string()));
                }
                "entry" => sink = Sink::Entry,
                "exit" => sink = Sink::Exit,
                "loop" => {
                    let mut it = rest.split_whitespace();
                    let n: usize = it.next().unwrap().parse().unwrap();
                    let kind = it.next().unwrap().to_string();
                    let iter = it.next().map(|s| s.to_string());
                    let l = cf!().loops.entry(n).or_default();
                    l.kind = kind;
                    l.iter = iter;
                    sink = Sink::LoopInv(n);
                }
                "loop_entry" => sink = Sink::LoopEntry(rest.parse().unwrap()),
                "loop_end" => sink = Sink::LoopEnd(rest.parse().unwrap()),
                "before_loop" => sink = Sink::LoopBefore(rest.parse().unwrap()),
                "after_loop" => sink = Sink::LoopAfter(rest.parse().unwrap()),
                "closure" => {
                    let i = rest.find(char::is_whitespace).unwrap_or(rest.len());
                    let n: usize = rest[..i].parse().unwrap();
                    cf!().closures.entry(n).or_default().header = rest[i..].trim().to_string();
                    sink = Sink::Closure(n);
                }
                "closure_entry" => sink = Sink::ClosureEntry(rest.parse().unwrap()),
                "at" => {
                    let a = &mut cf!().at;
                    a.push((rest.to_string(), String::new()));
                    sink = Sink::At(a.len() - 1);
                }
                "--" => {}
                _ => panic!("unknown directive {d}"),
            }
            continue;
        }
        let mut add = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        let k = cur_fn.clone();
        let mut fc = || c.fns.get_mut(k.as_ref().unwrap()).unwrap() as *mut FnC;
        unsafe {
            match sink.clone() {
                Sink::None => {}
                Sink::Top => add(&mut c.extra_top),
                Sink::Prelude => add(c.preludes.entry(module.clone()).or_default()),
                Sink::Type(t) => add(c.types.entry(t).or_default()),
                Sink::Trait(t) => add(c.traits.entry(t).or_default()),
                Sink::Impl(t) => add(c.impls.entry(t).or_default()),
                Sink::Spec => add(&mut (*fc()).spec),
                Sink::Entry => add(&mut (*fc()).entry),
                Sink::Exit => add(&mut (*fc()).exit),
                Sink::LoopInv(n) => add(&mut (*fc()).loops.entry(n).or_default().inv),
                Sink::LoopEntry(n) => add(&mut (*fc()).loops.entry(n).or_default().entry),
                Sink::LoopEnd(n) => add(&mut (*fc()).loops.entry(n).or_default().end),
                Sink::LoopBefore(n) => add(&mut (*fc()).loops.entry(n).or_default().before),
                Sink::LoopAfter(n) => add(&mut (*fc()).loops.entry(n).or_default().after),
                Sink::Closure(n) => add(&mut (*fc()).closures.entry(n).or_default().spec),
                Sink::ClosureEntry(n) => add(&mut (*fc()).closures.entry(n).or_default().entry),
                Sink::At(n) => add(&mut (&mut (*fc()).at)[n].1),
            }
        }
    }
}
