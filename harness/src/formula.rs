//! Reference: plural formulas with C precedence, associativity and arithmetic.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum F {
    N,
    Num(i64),
    Un(char, Box<F>),
    Bin(&'static str, Box<F>, Box<F>),
    Cond(Box<F>, Box<F>, Box<F>),
}
pub const BIN: [(&str, u8); 13] = [("||", 1), ("&&", 2), ("==", 3), ("!=", 3), ("<", 4), ("<=", 4), (">", 4), (">=", 4), ("+", 5), ("-", 5), ("*", 6), ("/", 6), ("%", 6)];
fn level(op: &str) -> u8 { BIN.iter().find(|b| b.0 == op).unwrap().1 }

pub fn eval(f: &F, n: i64) -> i64 {
    match f {
        F::N => n,
        F::Num(v) => *v,
        F::Un('-', a) => 0i64.wrapping_sub(eval(a, n)),
        F::Un(_, a) => (eval(a, n) == 0) as i64,
        F::Cond(t, a, b) => if eval(t, n) != 0 { eval(a, n) } else { eval(b, n) },
        F::Bin(op, a, b) => {
            let (x, y) = (eval(a, n), eval(b, n));
            let (p, q) = (x as i128, y as i128);
            match *op {
                "||" => (x != 0 || y != 0) as i64,
                "&&" => (x != 0 && y != 0) as i64,
                "==" => (x == y) as i64,
                "!=" => (x != y) as i64,
                "<" => (x < y) as i64,
                "<=" => (x <= y) as i64,
                ">" => (x > y) as i64,
                ">=" => (x >= y) as i64,
                "+" => (p + q) as i64,
                "-" => (p - q) as i64,
                "*" => (p * q) as i64,
                "/" => if y == 0 { if x < 0 { i64::MIN } else { i64::MAX } } else { (p / q) as i64 },
                _ => if y == 0 { x } else { (p % q) as i64 },
            }
        }
    }
}

const TOKENS: [&str; 23] = ["||", "&&", "==", "!=", "<=", ">=", "not", "and", "or", "<", ">", "+", "-", "*", "/", "%", "!", "?", ":", "(", ")", "n", " "];
fn tokens(s: &str) -> Option<Vec<String>> {
    let mut out = vec![];
    let mut r = s;
    loop {
        r = r.trim_start();
        if r.is_empty() { return Some(out); }
        let d = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        let t = if d > 0 { &r[..d] } else { TOKENS.iter().copied().find(|t| r.starts_with(t))? };
        r = &r[t.len()..];
        out.push(match t { "or" => "||", "and" => "&&", "not" => "!", t => t }.to_string());
    }
}
struct P { t: Vec<String>, i: usize }
impl P {
    fn peek(&self) -> &str { self.t.get(self.i).map_or("", |s| s) }
    fn cond(&mut self) -> Option<F> {
        let c = self.bin(1)?;
        if self.peek() != "?" { return Some(c); }
        self.i += 1;
        let a = self.cond()?;
        if self.peek() != ":" { return None; }
        self.i += 1;
        let b = self.cond()?;
        Some(F::Cond(Box::new(c), Box::new(a), Box::new(b)))
    }
    fn bin(&mut self, l: u8) -> Option<F> {
        if l > 6 { return self.unary(); }
        let mut a = self.bin(l + 1)?;
        loop {
            let Some(op) = BIN.iter().find(|b| b.0 == self.peek() && b.1 == l).map(|b| b.0) else { return Some(a) };
            self.i += 1;
            let b = self.bin(l + 1)?;
            a = F::Bin(op, Box::new(a), Box::new(b));
        }
    }
    fn unary(&mut self) -> Option<F> {
        let t = self.peek().to_string();
        self.i += 1;
        match t.as_str() {
            "!" => Some(F::Un('!', Box::new(self.unary()?))),
            "-" => Some(F::Un('-', Box::new(self.unary()?))),
            "n" => Some(F::N),
            "(" => { let a = self.cond()?; if self.peek() != ")" { return None; } self.i += 1; Some(a) }
            t if !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit()) => t.parse().ok().map(F::Num),
            _ => None,
        }
    }
}
thread_local! { pub static ACCEPT_KNOWN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Known finding: `!` as the right operand of an arithmetic operator is refused
pub fn known_refused(s: &str) -> bool {
    let Some(t) = tokens(s) else { return false };
    if parse_c(s).is_none() { return false; }
    let operand = |x: &str| x == "n" || x == ")" || x.bytes().all(|b| b.is_ascii_digit());
    (2..t.len()).any(|i| t[i] == "!" && matches!(t[i - 1].as_str(), "+" | "-" | "*" | "/" | "%") && operand(&t[i - 2]))
}
fn parse_c(s: &str) -> Option<F> {
    let mut p = P { t: tokens(s)?, i: 0 };
    let f = p.cond()?;
    if p.i == p.t.len() { Some(f) } else { None }
}
pub fn parse(s: &str) -> Option<F> {
    if s.trim().is_empty() { return Some(F::N); }
    if !ACCEPT_KNOWN.with(|a| a.get()) && known_refused(s) { None } else { parse_c(s) }
}

/// writes a formula; `style` gives parentheses, spellings and space
pub fn print(f: &F, style: &mut dyn FnMut(usize) -> usize) -> String {
    fn sp(style: &mut dyn FnMut(usize) -> usize) -> &'static str { ["", "", " ", " ", "  ", "\t", "\u{a0}", "\u{3000} "][style(8)] }
    fn paren(s: String, style: &mut dyn FnMut(usize) -> usize) -> String { format!("({}{}{})", sp(style), s, sp(style)) }
    // levels: 0 conditional, 1..6 binary, 7 unary, 8 atom
    fn go(f: &F, min: u8, right_of_arith: bool, style: &mut dyn FnMut(usize) -> usize) -> String {
        let (s, l) = match f {
            F::N => ("n".to_string(), 8),
            F::Num(v) => if *v < 0 { (format!("({v})"), 8) } else { (format!("{}{}", ["", "", "", "0", "00"][style(5)], v), 8) },
            F::Un(op, a) => {
                let s = if *op == '-' { format!("-{}{}", sp(style), go(a, 7, false, style)) } else if style(3) == 0 { format!("not{}{}", sp(style), go(a, 7, false, style)) } else { format!("!{}{}", sp(style), go(a, 7, false, style)) };
                (s, if *op == '!' && right_of_arith { 0 } else { 7 })
            }
            F::Bin(op, a, b) => {
                let l = level(op);
                let o = match *op { "||" if style(3) == 0 => "or", "&&" if style(3) == 0 => "and", o => o };
                let x = go(a, l, right_of_arith && l >= 5, style);
                let y = go(b, l + 1, l >= 5, style);
                (format!("{x}{}{o}{}{y}", sp(style), sp(style)), l)
            }
            F::Cond(t, a, b) => {
                let (x, y, z) = (go(t, 1, false, style), go(a, 0, false, style), go(b, 0, false, style));
                (format!("{x}{}?{}{y}{}:{}{z}", sp(style), sp(style), sp(style), sp(style)), 0)
            }
        };
        let need = l < min || (right_of_arith && l == 0);
        if need || style(12) == 0 { paren(s, style) } else { s }
    }
    go(f, 0, false, style)
}
