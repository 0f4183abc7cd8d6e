//! reference model: terms, truth functions and inference rules written from the documentation, independent of the
//! code under test (which is only used for the type `Term` it stores)
use nar20_1::Term::{Copula, Term};
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Cop {
    Sim,
    Inh,
    Pred,
    Impl,
    Equiv,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum K {
    Seq,
    SetInt,
    SetExt,
    Conj,
    Prod,
    IntInt,
    ExtInt,
    Par,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T {
    N(String),
    QV(String),
    DV(String),
    IV(String),
    S(Cop, Box<T>, Box<T>),
    C(K, Vec<T>),
    Img(Box<T>, usize, Vec<T>),
    Neg(Box<T>),
}
use T::*;
pub fn n(s: &str) -> T {
    N(s.to_string())
}
pub fn st(c: Cop, a: T, b: T) -> T {
    S(c, Box::new(a), Box::new(b))
}
impl fmt::Display for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let list = |v: &Vec<T>, sep: &str| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep);
        match self {
            N(s) => write!(f, "{}", s),
            QV(s) => write!(f, "?{}", s),
            DV(s) => write!(f, "#{}", s),
            IV(s) => write!(f, "${}", s),
            S(c, a, b) => {
                let c = match c {
                    Cop::Sim => "<->",
                    Cop::Inh => "-->",
                    Cop::Pred => "=/>",
                    Cop::Impl => "==>",
                    Cop::Equiv => "<=>",
                };
                write!(f, "<{} {} {}>", a, c, b)
            }
            C(K::Seq, v) => write!(f, "({})", list(v, ",")),
            C(K::SetInt, v) => write!(f, "[{}]", list(v, " ")),
            C(K::SetExt, v) => write!(f, "{{{}}}", list(v, " ")),
            C(K::Conj, v) => write!(f, "({})", list(v, "&&")),
            C(K::Prod, v) => write!(f, "({})", list(v, "*")),
            C(K::IntInt, v) => write!(f, "({})", list(v, "|")),
            C(K::ExtInt, v) => write!(f, "({})", list(v, "&")),
            C(K::Par, v) => write!(f, "({})", list(v, ";")),
            Img(r, i, v) => write!(f, "({} /{} {})", r, i + 1, list(v, " ")),
            Neg(x) => write!(f, "(!{})", x),
        }
    }
}
impl fmt::Debug for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self)
    }
}
fn v(x: &[Box<Term>]) -> Vec<T> {
    x.iter().map(|b| from(b)).collect()
}
pub fn from(t: &Term) -> T {
    match t {
        Term::Stmt(c, a, b) => S(
            match c {
                Copula::SIM => Cop::Sim,
                Copula::INH => Cop::Inh,
                Copula::PREDIMPL => Cop::Pred,
                Copula::IMPL => Cop::Impl,
                Copula::EQUIV => Cop::Equiv,
            },
            Box::new(from(a)),
            Box::new(from(b)),
        ),
        Term::Name(s) => N(s.clone()),
        Term::Seq(x) => C(K::Seq, v(x)),
        Term::SetInt(x) => C(K::SetInt, v(x)),
        Term::SetExt(x) => C(K::SetExt, v(x)),
        Term::QVar(s) => QV(s.clone()),
        Term::DepVar(s) => DV(s.clone()),
        Term::IndepVar(s) => IV(s.clone()),
        Term::Conj(x) => C(K::Conj, v(x)),
        Term::Prod(x) => C(K::Prod, v(x)),
        Term::Img(r, i, x) => Img(Box::new(from(r)), *i, v(x)),
        Term::IntInt(x) => C(K::IntInt, v(x)),
        Term::ExtInt(x) => C(K::ExtInt, v(x)),
        Term::Par(x) => C(K::Par, v(x)),
        Term::Neg(x) => Neg(Box::new(from(x))),
    }
}
pub fn to(t: &T) -> Term {
    let l = |x: &Vec<T>| x.iter().map(|y| Box::new(to(y))).collect::<Vec<_>>();
    match t {
        N(s) => Term::Name(s.clone()),
        QV(s) => Term::QVar(s.clone()),
        DV(s) => Term::DepVar(s.clone()),
        IV(s) => Term::IndepVar(s.clone()),
        S(c, a, b) => Term::Stmt(
            match c {
                Cop::Sim => Copula::SIM,
                Cop::Inh => Copula::INH,
                Cop::Pred => Copula::PREDIMPL,
                Cop::Impl => Copula::IMPL,
                Cop::Equiv => Copula::EQUIV,
            },
            Box::new(to(a)),
            Box::new(to(b)),
        ),
        C(K::Seq, x) => Term::Seq(l(x)),
        C(K::SetInt, x) => Term::SetInt(l(x)),
        C(K::SetExt, x) => Term::SetExt(l(x)),
        C(K::Conj, x) => Term::Conj(l(x)),
        C(K::Prod, x) => Term::Prod(l(x)),
        C(K::IntInt, x) => Term::IntInt(l(x)),
        C(K::ExtInt, x) => Term::ExtInt(l(x)),
        C(K::Par, x) => Term::Par(l(x)),
        Img(r, i, x) => Term::Img(Box::new(to(r)), *i, l(x)),
        Neg(x) => Term::Neg(Box::new(to(x))),
    }
}
/// parser for what `Display` prints (workload files)
pub fn parse(s: &str) -> Option<T> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let t = pt(&c, &mut i)?;
    if i == c.len() {
        Some(t)
    } else {
        None
    }
}
fn word(c: &[char], i: &mut usize) -> Option<String> {
    let s = *i;
    while *i < c.len() && (c[*i].is_alphanumeric() || "-_^".contains(c[*i])) {
        *i += 1;
    }
    if *i == s {
        None
    } else {
        Some(c[s..*i].iter().collect())
    }
}
fn eat(c: &[char], i: &mut usize, s: &str) -> bool {
    let w: Vec<char> = s.chars().collect();
    if c[*i..].starts_with(&w) {
        *i += w.len();
        true
    } else {
        false
    }
}
fn pt(c: &[char], i: &mut usize) -> Option<T> {
    match *c.get(*i)? {
        '<' => {
            *i += 1;
            let a = pt(c, i)?;
            let mut cop = None;
            for (s, k) in [(" --> ", Cop::Inh), (" <-> ", Cop::Sim), (" ==> ", Cop::Impl), (" =/> ", Cop::Pred), (" <=> ", Cop::Equiv)] {
                if eat(c, i, s) {
                    cop = Some(k);
                    break;
                }
            }
            let b = {
                cop?;
                pt(c, i)?
            };
            if !eat(c, i, ">") {
                return None;
            }
            Some(st(cop?, a, b))
        }
        '{' => {
            *i += 1;
            let mut v = vec![pt(c, i)?];
            while eat(c, i, " ") {
                v.push(pt(c, i)?);
            }
            if eat(c, i, "}") {
                Some(C(K::SetExt, v))
            } else {
                None
            }
        }
        '[' => {
            *i += 1;
            let mut v = vec![pt(c, i)?];
            while eat(c, i, " ") {
                v.push(pt(c, i)?);
            }
            if eat(c, i, "]") {
                Some(C(K::SetInt, v))
            } else {
                None
            }
        }
        '?' => {
            *i += 1;
            word(c, i).map(QV)
        }
        '#' => {
            *i += 1;
            word(c, i).map(DV)
        }
        '$' => {
            *i += 1;
            word(c, i).map(IV)
        }
        '(' => {
            *i += 1;
            if eat(c, i, "!") {
                let a = pt(c, i)?;
                return if eat(c, i, ")") { Some(Neg(Box::new(a))) } else { None };
            }
            let a = pt(c, i)?;
            for k in 1..3 {
                if eat(c, i, &format!(" /{} ", k)) {
                    let b = pt(c, i)?;
                    return if eat(c, i, ")") { Some(Img(Box::new(a), k - 1, vec![b])) } else { None };
                }
            }
            for (s, k) in [("&&", K::Conj), (",", K::Seq), ("*", K::Prod), ("|", K::IntInt), ("&", K::ExtInt), (";", K::Par)] {
                if eat(c, i, s) {
                    let mut v = vec![a, pt(c, i)?];
                    while eat(c, i, s) {
                        v.push(pt(c, i)?);
                    }
                    return if eat(c, i, ")") { Some(C(k, v)) } else { None };
                }
            }
            None
        }
        _ => word(c, i).map(N),
    }
}
/// a workload line "<term>. {f c} :|:" in canonical form
#[derive(Clone, Debug)]
pub struct Line {
    pub t: T,
    pub punct: char,
    pub tv: (f64, f64),
    pub event: bool,
}
pub fn parse_line(s: &str) -> Option<Line> {
    let (s, event) = match s.strip_suffix(" :|:") {
        Some(x) => (x, true),
        None => (s, false),
    };
    let (s, tv) = if s.ends_with('}') && s.contains(" {") {
        let k = s.rfind(" {")?;
        let mut p = s[k + 2..s.len() - 1].split(' ');
        ((&s[..k]), (p.next()?.parse().ok()?, p.next()?.parse().ok()?))
    } else {
        (s, (1.0, 0.9))
    };
    let punct = s.chars().last()?;
    if !".?!".contains(punct) {
        return None;
    }
    Some(Line { t: parse(&s[..s.len() - 1])?, punct, tv, event })
}
pub fn kids(t: &T) -> Vec<&T> {
    match t {
        S(_, a, b) => vec![a, b],
        C(_, v) => v.iter().collect(),
        Img(r, _, v) => {
            let mut x: Vec<&T> = v.iter().collect();
            x.push(r);
            x
        }
        Neg(x) => vec![x],
        _ => vec![],
    }
}
pub fn subterms(t: &T) -> Vec<T> {
    let mut r = vec![t.clone()];
    for k in kids(t) {
        r.extend(subterms(k));
    }
    r
}
pub fn usub(t: &T) -> Vec<T> {
    let mut r = subterms(t);
    r.sort();
    r.dedup();
    r
}
pub fn is_var(t: &T) -> bool {
    matches!(t, QV(_) | DV(_) | IV(_))
}
pub fn has_var(t: &T) -> bool {
    is_var(t) || kids(t).into_iter().any(has_var)
}
pub fn depth(t: &T) -> usize {
    1 + kids(t).into_iter().map(depth).max().unwrap_or(0)
}
/// syntactic complexity: names and variables 1, statements 1 + parts, compounds the sum of their parts
pub fn complexity(t: &T) -> u64 {
    match t {
        N(_) | QV(_) | DV(_) | IV(_) => 1,
        S(_, a, b) => 1 + complexity(a) + complexity(b),
        _ => kids(t).into_iter().map(complexity).sum(),
    }
}
pub type Sub = BTreeMap<T, T>;
/// one-sided matching: variables of the pattern are bound, consistently, to non-variable terms
pub fn matches(p: &T, t: &T) -> Option<Sub> {
    fn go(p: &T, t: &T, s: &mut Sub) -> bool {
        if is_var(p) {
            if is_var(t) {
                return false;
            }
            return match s.get(p) {
                Some(x) => x == t,
                None => {
                    s.insert(p.clone(), t.clone());
                    true
                }
            };
        }
        match (p, t) {
            (N(a), N(b)) => a == b,
            (S(c, a, b), S(d, x, y)) => c == d && go(a, x, s) && go(b, y, s),
            (C(k, a), C(l, b)) => k == l && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| go(x, y, s)),
            (Img(r, i, a), Img(q, j, b)) => i == j && go(r, q, s) && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| go(x, y, s)),
            (Neg(a), Neg(b)) => go(a, b, s),
            _ => false,
        }
    }
    let mut s = Sub::new();
    if go(p, t, &mut s) {
        Some(s)
    } else {
        None
    }
}
pub fn subst(t: &T, s: &Sub) -> T {
    if is_var(t) {
        return s.get(t).cloned().unwrap_or_else(|| t.clone());
    }
    let l = |v: &Vec<T>| v.iter().map(|x| subst(x, s)).collect::<Vec<_>>();
    match t {
        S(c, a, b) => st(*c, subst(a, s), subst(b, s)),
        C(k, v) => C(*k, l(v)),
        Img(r, i, v) => Img(Box::new(subst(r, s)), *i, l(v)),
        Neg(x) => Neg(Box::new(subst(x, s))),
        _ => t.clone(),
    }
}

// ---- truth functions (NAL, evidential horizon 1)
pub type Tv = (f64, f64);
fn w2c(w: f64) -> f64 {
    w / (w + 1.0)
}
fn c2w(c: f64) -> f64 {
    c / (1.0 - c)
}
pub fn exp(a: Tv) -> f64 {
    a.1 * (a.0 - 0.5) + 0.5
}
fn f_ded(a: Tv, b: Tv) -> Tv {
    let f = a.0 * b.0;
    (f, a.1 * b.1 * f)
}
fn f_abd(a: Tv, b: Tv) -> Tv {
    (a.0, w2c(b.0 * a.1 * b.1))
}
fn f_ind(a: Tv, b: Tv) -> Tv {
    f_abd(b, a)
}
fn f_comp(a: Tv, b: Tv) -> Tv {
    let o = 1.0 - (1.0 - a.0) * (1.0 - b.0);
    (if o.abs() < 1e-8 { 0.0 } else { a.0 * b.0 / o }, w2c(o * a.1 * b.1))
}
fn f_int(a: Tv, b: Tv) -> Tv {
    (a.0 * b.0, a.1 * b.1)
}
pub fn f_rev(a: Tv, b: Tv) -> Tv {
    let (x, y) = (c2w(a.1), c2w(b.1));
    let w = x + y;
    (if w > 0.0 { (x * a.0 + y * b.0) / w } else { 0.0 }, w2c(w))
}
pub fn tv_eq(a: Tv, b: Tv) -> bool {
    (a.0 - b.0).abs() < 1e-7 && (a.1 - b.1).abs() < 1e-7
}

// ---- rules
/// conclusions from one judgement
pub fn unary(t: &T, tv: Tv) -> Vec<(T, Tv)> {
    let mut r = vec![];
    match t {
        Neg(x) => r.push(((**x).clone(), (1.0 - tv.0, tv.1))),
        S(Cop::Inh, s, p) => {
            if let C(K::IntInt, v) = &**s {
                for x in v.iter().take(3) {
                    r.push((st(Cop::Inh, x.clone(), (**p).clone()), tv));
                }
            }
            if let C(K::IntInt, v) = &**p {
                for x in v.iter().take(3) {
                    r.push((st(Cop::Inh, (**s).clone(), x.clone()), tv));
                }
            }
            if let C(K::Prod, v) = &**s {
                if v.len() == 2 {
                    r.push((st(Cop::Inh, v[0].clone(), Img(p.clone(), 0, vec![v[1].clone()])), tv));
                    r.push((st(Cop::Inh, v[1].clone(), Img(p.clone(), 1, vec![v[0].clone()])), tv));
                }
            }
            if let Img(rel, i, v) = &**p {
                if v.len() == 1 && *i == 0 {
                    r.push((st(Cop::Inh, C(K::Prod, vec![(**s).clone(), v[0].clone()]), (**rel).clone()), tv));
                }
                if v.len() == 1 && *i == 1 {
                    r.push((st(Cop::Inh, C(K::Prod, vec![v[0].clone(), (**s).clone()]), (**rel).clone()), tv));
                }
            }
        }
        S(Cop::Sim, a, b) => match (&**a, &**b) {
            (C(K::SetInt, x), C(K::SetInt, y)) | (C(K::SetExt, x), C(K::SetExt, y)) if x.len() == 1 && y.len() == 1 => {
                r.push((st(Cop::Sim, x[0].clone(), y[0].clone()), tv))
            }
            _ => {}
        },
        S(Cop::Pred, a, b) => {
            if let C(K::Par, v) = &**b {
                for x in v {
                    r.push((st(Cop::Pred, (**a).clone(), x.clone()), tv));
                }
            }
        }
        _ => {}
    }
    r
}
fn binary1(a: &T, ta: Tv, b: &T, tb: Tv, r: &mut Vec<(T, Tv)>) {
    if let S(Cop::Impl, ac, ap) = a {
        if let C(K::Conj, v) = &**ac {
            for i in 0..v.len().min(4) {
                if let Some(s) = matches(&v[i], b) {
                    let mut rest: Vec<T> = v.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, x)| subst(x, &s)).collect();
                    let p = subst(ap, &s);
                    let subj = if rest.len() == 1 { rest.remove(0) } else { C(K::Conj, rest) };
                    r.push((st(Cop::Impl, subj, p), f_ded(ta, tb)));
                }
            }
        }
        if let Some(s) = matches(ac, b) {
            r.push((subst(ap, &s), f_ded(ta, tb)));
        }
    }
    if let (S(ca, s1, p1), S(cb, s2, p2)) = (a, b) {
        let is = |c: &Cop| matches!(c, Cop::Inh | Cop::Sim);
        if *ca == Cop::Inh && *cb == Cop::Inh && s1 == s2 {
            if let (C(K::SetInt, x), C(K::SetInt, y)) = (&**p1, &**p2) {
                let u: Vec<T> = x.iter().chain(y.iter()).cloned().collect();
                r.push((st(Cop::Inh, (**s1).clone(), C(K::SetInt, u)), f_int(ta, tb)));
            }
            if p1 != p2 {
                r.push((st(Cop::Inh, (**s1).clone(), C(K::ExtInt, vec![(**p1).clone(), (**p2).clone()])), f_int(ta, tb)));
            }
        }
        if is(ca) && is(cb) {
            if p1 != p2 && s1 == s2 {
                r.push((st(Cop::Sim, (**p1).clone(), (**p2).clone()), f_comp(ta, tb)));
            }
            if s1 != s2 && p1 == p2 {
                r.push((st(Cop::Sim, (**s1).clone(), (**s2).clone()), f_comp(ta, tb)));
            }
        }
        if ca == cb && matches!(ca, Cop::Pred | Cop::Impl | Cop::Inh) && p1 == s2 && s1 != p2 {
            r.push((st(*ca, (**s1).clone(), (**p2).clone()), f_ded(ta, tb)));
        }
        if *ca == Cop::Inh && *cb == Cop::Inh {
            if p1 == p2 && s1 != s2 {
                r.push((st(Cop::Inh, (**s1).clone(), (**s2).clone()), f_abd(ta, tb)));
            }
            if s1 == s2 && p1 != p2 {
                r.push((st(Cop::Inh, (**p1).clone(), (**p2).clone()), f_ind(ta, tb)));
            }
        }
    }
}
/// conclusions from two judgements, in both roles
pub fn binary(a: &T, ta: Tv, b: &T, tb: Tv) -> Vec<(T, Tv)> {
    let mut r = vec![];
    binary1(a, ta, b, tb, &mut r);
    binary1(b, tb, a, ta, &mut r);
    r
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn rt() {
        for s in ["<a --> b>", "<(a*{b}) --> (r /1 [c])>", "<(<$x --> a>&&<$x --> b>) ==> (!<$x --> c>)>", "((a|b),^op)"] {
            assert_eq!(parse(s).unwrap().to_string(), s);
        }
    }
}
pub fn unifies(p: &T, t: &T) -> bool {
    matches(p, t).is_some()
}
