//! Sidecar contract files (`*.vc`): see DESIGN.md, "Contract files".
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct LoopTxt {
    pub inv: String,
    pub body: String,
    pub end: String,
    pub init: String,
}

#[derive(Default, Clone, Debug)]
pub struct FnTxt {
    pub contract: String,
    pub opts: HashSet<String>,
    pub body: String,
    pub tail: String,
    pub ret: String,
    pub loops: HashMap<usize, LoopTxt>,
    pub closures: HashMap<usize, String>,
    /// when the numbers of loops or closures are not those the contract knows: which is which, by their heads
    pub loop_at: Option<HashMap<String, Vec<usize>>>,
    pub closure_at: Option<HashMap<String, Vec<usize>>>,
}

impl FnTxt {
    /// All text which can mention parameters or locals
    pub fn all_text(&self) -> String {
        let mut s = format!("{} {} {} {}", self.contract, self.body, self.tail, self.ret);
        for l in self.loops.values() {
            s += &format!(" {} {} {} {}", l.inv, l.body, l.end, l.init);
        }
        for c in self.closures.values() {
            s += " ";
            s += c;
        }
        s
    }

    /// Text which can mention locals
    pub fn inner_text(&self) -> String {
        FnTxt { contract: String::new(), ..self.clone() }.all_text()
    }

    pub fn map_text(&mut self, f: &dyn Fn(&str) -> String) {
        self.contract = f(&self.contract);
        self.body = f(&self.body);
        self.tail = f(&self.tail);
        self.ret = f(&self.ret);
        for l in self.loops.values_mut() {
            l.inv = f(&l.inv);
            l.body = f(&l.body);
            l.end = f(&l.end);
            l.init = f(&l.init);
        }
        for c in self.closures.values_mut() {
            *c = f(c);
        }
    }
}

#[derive(Default)]
pub struct Side {
    pub fns: BTreeMap<String, FnTxt>,
    pub implitems: HashMap<String, String>,
    pub moditems: HashMap<String, String>,
    pub externals: HashSet<String>,
    pub drops: HashSet<String>,
    pub attrs: HashMap<String, String>,
}

pub fn load(dir: &Path) -> Side {
    let mut side = Side::default();
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |x| x == "vc"))
        .collect();
    files.sort();
    for f in files {
        parse(&std::fs::read_to_string(&f).unwrap(), &mut side);
    }
    side
}

fn parse(text: &str, side: &mut Side) {
    enum Tgt {
        None,
        Contract(String),
        Body(String),
        Tail(String),
        Ret(String),
        Loop(String, usize, u8),
        Closure(String, usize),
        ImplItems(String),
        ModItems(String),
    }
    let mut tgt = Tgt::None;
    let mut cur = String::new();
    for line in text.lines() {
        if let Some(d) = line.strip_prefix("@@") {
            let words: Vec<&str> = d.split_whitespace().collect();
            let arg = words.get(1).map(|s| s.to_string()).unwrap_or_default();
            let num = || arg.parse::<usize>().expect(line);
            tgt = match words[0] {
                "fn" => {
                    cur = arg.clone();
                    let e = side.fns.entry(cur.clone()).or_default();
                    for w in &words[2..] {
                        e.opts.insert(w.to_string());
                    }
                    Tgt::Contract(cur.clone())
                }
                "body" => Tgt::Body(cur.clone()),
                "tail" => Tgt::Tail(cur.clone()),
                "ret" => Tgt::Ret(cur.clone()),
                "loop" => Tgt::Loop(cur.clone(), num(), 0),
                "loopbody" => Tgt::Loop(cur.clone(), num(), 1),
                "loopend" => Tgt::Loop(cur.clone(), num(), 2),
                "loopinit" => Tgt::Loop(cur.clone(), num(), 3),
                "closure" => Tgt::Closure(cur.clone(), num()),
                "implitems" => Tgt::ImplItems(arg),
                "moditems" => Tgt::ModItems(arg),
                "external" => {
                    side.externals.insert(arg);
                    Tgt::None
                }
                "drop" => {
                    side.drops.insert(arg);
                    Tgt::None
                }
                "attr" => {
                    side.attrs.insert(arg, words[2..].join(" "));
                    Tgt::None
                }
                "end" => Tgt::None,
                w => panic!("unknown directive {}", w),
            };
            continue;
        }
        let s = match &tgt {
            Tgt::None => continue,
            Tgt::Contract(k) => &mut side.fns.get_mut(k).unwrap().contract,
            Tgt::Body(k) => &mut side.fns.get_mut(k).unwrap().body,
            Tgt::Tail(k) => &mut side.fns.get_mut(k).unwrap().tail,
            Tgt::Ret(k) => &mut side.fns.get_mut(k).unwrap().ret,
            Tgt::Loop(k, n, w) => {
                let l = side.fns.get_mut(k).unwrap().loops.entry(*n).or_default();
                match w {
                    0 => &mut l.inv,
                    1 => &mut l.body,
                    2 => &mut l.end,
                    _ => &mut l.init,
                }
            }
            Tgt::Closure(k, n) => side.fns.get_mut(k).unwrap().closures.entry(*n).or_default(),
            Tgt::ImplItems(k) => side.implitems.entry(k.clone()).or_default(),
            Tgt::ModItems(k) => side.moditems.entry(k.clone()).or_default(),
        };
        s.push_str(line);
        s.push('\n');
    }
}
