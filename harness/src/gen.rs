//! workload generators
use crate::model::*;
use simcore::Prng;

pub struct G<'a> {
    pub r: &'a mut Prng,
    pub atoms: Vec<String>,
    /// allow compound subjects/predicates
    pub rich: bool,
}
pub fn pick<'b, X>(r: &mut Prng, v: &'b [X]) -> &'b X {
    &v[r.below(v.len() as u64) as usize]
}
impl<'a> G<'a> {
    pub fn new(r: &'a mut Prng) -> G<'a> {
        let n = 3 + r.below(5) as usize;
        let all = ["a", "b", "c", "d", "e", "f", "g", "h"];
        let rich = r.below(4) != 0;
        G { r, atoms: all[..n].iter().map(|s| s.to_string()).collect(), rich }
    }
    pub fn atom(&mut self) -> T {
        let a = pick(self.r, &self.atoms).clone();
        N(a)
    }
    /// subject or predicate of an inheritance statement
    pub fn part(&mut self, subj: bool) -> T {
        if !self.rich || self.r.below(10) < 6 {
            return self.atom();
        }
        match self.r.below(8) {
            0 => C(K::SetExt, vec![self.atom()]),
            1 | 2 => C(K::SetInt, vec![self.atom()]),
            3 => C(K::IntInt, vec![self.atom(), self.atom()]),
            4 => C(K::ExtInt, vec![self.atom(), self.atom()]),
            5 | 6 if subj => {
                let mut v = vec![self.atom(), self.atom()];
                if self.r.below(5) == 0 {
                    v.push(self.atom());
                }
                C(K::Prod, v)
            }
            5 | 6 => Img(Box::new(self.atom()), self.r.below(2) as usize, vec![self.atom()]),
            _ => self.atom(),
        }
    }
    pub fn inh(&mut self) -> T {
        let a = self.part(true);
        let b = self.part(false);
        st(Cop::Inh, a, b)
    }
    /// any declarative statement
    pub fn stmt(&mut self) -> T {
        match self.r.below(20) {
            0..=11 => self.inh(),
            12 | 13 => {
                let (a, b) = match self.r.below(3) {
                    0 => (C(K::SetExt, vec![self.atom()]), C(K::SetExt, vec![self.atom()])),
                    1 => (C(K::SetInt, vec![self.atom()]), C(K::SetInt, vec![self.atom()])),
                    _ => (self.atom(), self.atom()),
                };
                st(Cop::Sim, a, b)
            }
            14 => {
                let x = self.inh();
                if self.rich {
                    Neg(Box::new(x))
                } else {
                    x
                }
            }
            15 => {
                let (a, b) = (self.inh1(), self.inh1());
                st(Cop::Impl, a, b)
            }
            16 => {
                let (a, b) = (self.atom(), self.atom());
                st(Cop::Impl, st(Cop::Inh, IV("x".into()), a), st(Cop::Inh, IV("x".into()), b))
            }
            17 | 18 => {
                let n = 2 + self.r.below(3);
                let mut v = vec![];
                for _ in 0..n {
                    if self.r.below(3) == 0 {
                        v.push(self.inh1());
                    } else {
                        v.push(st(Cop::Inh, IV("x".into()), self.atom()));
                    }
                }
                st(Cop::Impl, C(K::Conj, v), st(Cop::Inh, IV("x".into()), self.atom()))
            }
            _ => self.atom(),
        }
    }
    pub fn inh1(&mut self) -> T {
        let (a, b) = (self.atom(), self.atom());
        st(Cop::Inh, a, b)
    }
    pub fn tv(&mut self) -> String {
        match self.r.below(12) {
            0..=5 => String::new(),
            6 => " {0 0.9}".into(),
            7 => " {1.0 0.5}".into(),
            8 => " {0.5 0.8}".into(),
            9 => format!(" {{{} {}}}", self.r.below(101) as f64 / 100.0, self.r.below(100) as f64 / 100.0),
            10 => " {1 0.99}".into(),
            _ => " {0.9 0.3}".into(),
        }
    }
    pub fn judgement(&mut self) -> String {
        let t = self.stmt();
        format!("{}.{}", t, self.tv())
    }
    pub fn question(&mut self) -> String {
        let t = self.stmt();
        let t = self.qvars(t);
        format!("{}?{}", t, if self.r.below(2) == 0 { " :|:" } else { "" })
    }
    /// replaces some names by query variables (one name everywhere)
    pub fn qvars(&mut self, t: T) -> T {
        if self.r.below(2) == 0 {
            return t;
        }
        let names: Vec<T> = usub(&t).into_iter().filter(|x| matches!(x, N(_))).collect();
        if names.is_empty() {
            return t;
        }
        let k = pick(self.r, &names).clone();
        let all = self.r.below(2) == 0;
        let mut cnt = 0;
        replace(&t, &k, &QV("q".into()), all, &mut cnt)
    }
}
pub fn replace(t: &T, k: &T, by: &T, all: bool, cnt: &mut u32) -> T {
    if t == k && (all || *cnt == 0) {
        *cnt += 1;
        return by.clone();
    }
    match t {
        S(c, a, b) => {
            let a = replace(a, k, by, all, cnt);
            let b = replace(b, k, by, all, cnt);
            st(*c, a, b)
        }
        C(kk, v) => C(*kk, v.iter().map(|x| replace(x, k, by, all, cnt)).collect()),
        Img(r, i, v) => {
            let v = v.iter().map(|x| replace(x, k, by, all, cnt)).collect();
            Img(Box::new(replace(r, k, by, all, cnt)), *i, v)
        }
        Neg(x) => Neg(Box::new(replace(x, k, by, all, cnt))),
        x => x.clone(),
    }
}
pub use T::*;

/// raw garbage and near-miss lines a user, file or client may send
pub fn garbage(r: &mut Prng) -> String {
    let frag = [
        "<", ">", " --> ", " =/> ", " ==> ", " <-> ", " <=> ", "(", ")", "{", "}", "[", "]", "?", "!", ".", "a", "b", "^x", "$x", "#y", "?z", ",",
        "*", "&&", "|", "&", " ", ":|:", " :|:", "{1 0.9}", "{nan nan}", "{2 -1}", "{inf 1}", "{0.5 1.0}", "{a b}", "{}", "é", "漢", "🙂", "/1", " /2 ", "//",
        "!s", "!sp", "!dt", "\t", "\u{0}", "-", "_", "0", "9", "{SELF}", "\\", "\"", "%", "{1 0.9 0.3}", "{ }", "{-0 0}", "{1e400 0.5}",
    ];
    let n = 1 + r.below(9);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(pick(r, &frag));
    }
    s
}
/// nasty but structured lines
pub fn nasty(r: &mut Prng) -> String {
    let tvs = [
        "{1.0 1.0}", "{1 1}", "{2 0.9}", "{-1 0.9}", "{0.5 -0.2}", "{0.5 5}", "{nan 0.9}", "{0.5 nan}", "{inf 0.9}", "{1 inf}", "{-inf -inf}", "{a b}", "{1 }",
        "{ 1}", "{1 0.9 }", "{é 1}", "{}", "{1}", "{1e308 0.9}", "{0.9 0.99999999999999999}", "{1,0.9}", "{0 0}", "{+1 .5}", "{NaN NaN}", "{1 1e-320}",
    ];
    let l = [
        "!sabc", "!s-3", "!s 4", "!s1.5", "!s99999999999999999999", "!s0", "!sé", "!é", "é", "éé.", "漢字", "漢字.", "a漢.", "aé?", "!.nlp", "!.nlp ", "!.nlp the cat is a animal",
        "!por", "!por ", "!por x", "!por NOP", "!por NOP a b c", "!por execinj x", "!por é é", "!peb", "!peb 2", "!peb é", "!QQQ", "!Q", "!dtff", "!dmdx", "//é", "/", "!", "!!", "?", ".",
        "..", "}", "{", "{}", "{}.", "}.", "a}", "a. }", " ", "  .", "\t.", " :|:", "a :|:", ". :|:", "a. :|:", "a! :|:", "a? :|:", "a! ", "a.", "a?", "<a --> b>", "<a --> b>;", "<a --> b>.é",
        "<a --> b>. é", "<a=/>b>.", "<a =/> b>.", "<a =/> b>?", "<a =/> b>!", "<a =/> b>. :|:", "<a =/> b>! :|:", "<(a,b) =/> c>.", "<(a,^x) =/> c>.", "<(^x,a) =/> c>.", "<(a,b,c) =/> c>.",
        "<(a,^x) =/> (b,c)>.", "<(a,<({SELF}*b) --> ^x>) =/> c>.", "<(a,<b --> ^x>) =/> c>.", "<(a,<(b*c) --> ^x>) =/> c>.", "<({SELF}*a) --> ^x>. :|:", "^x. :|:", "^x! :|:", "(a,^x)! :|:", "(a,b)! :|:",
        "(a,b). :|:", "(a&&b)! :|:", "(!a)! :|:", "<(a,^x,b,^y) =/> c>.", "<((a,^x),^y) =/> c>.", "<a =/> (b,^x)>.", "<(a,^x) =/> ^y>.", "<(?a,^x) =/> b>?", "<(#a,^x) =/> #a>.", "<($a,^x) =/> <$a --> b>>.",
        "<(<$a --> k>,<({SELF}*$a) --> ^x>) =/> <$a --> b>>.", "<(a*b*c) --> r>.", "<(a*b) --> (r /1 c)>.", "<{a} <-> {b}>.", "<?x --> ?y>?", "?x?", "$x.", "#x.", "<$x --> a>.", "<(a*a) --> a>.", "<<a --> b> --> <a --> b>>.",
        "<<a --> b> ==> <a --> b>>.", "(a|b).", "(a&b).", "{a}.", "[a].", "{a}! :|:", "{a}. :|:", "-", "_.", "^.", "^! :|:", "0.", "\u{feff}a.", "a\u{300}.", "a. {1 0.9}\u{a0}", "\r", "a.\r", "<a-->b>.",
    ];
    match r.below(4) {
        0 => {
            let heads = ["<a --> b>.", "a.", "<a <-> b>.", "a!", "<(a,^x) =/> b>.", "<a --> b>?", "(!<a --> b>).", "<<$x --> a> ==> <$x --> b>>."];
            let ev = ["", "", " :|:"];
            format!("{} {}{}", pick(r, &heads), pick(r, &tvs), pick(r, &ev))
        }
        _ => pick(r, &l).to_string(),
    }
}
/// depth is bounded by three: parsing time grows exponentially with nesting
pub fn nesting_ok(s: &str) -> bool {
    let mut d: i32 = 0;
    let mut m = 0;
    for c in s.chars() {
        if "<({[".contains(c) {
            d += 1;
            m = m.max(d);
        }
        if ">)}]".contains(c) {
            d -= 1;
        }
    }
    m <= 5
}
pub fn hostile(r: &mut Prng) -> String {
    loop {
        let s = if r.below(3) == 0 { garbage(r) } else { nasty(r) };
        if nesting_ok(&s) && !s.contains('\n'){
            return s;
        }
    }
}
