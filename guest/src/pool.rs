//! A term pool that does not look at the terms it is given.
use crate::cs;
use crate::lazy::*;
use carcara::ast::*;
use indexmap::IndexSet;

pub struct SymPool;

/// terms are never freed: nodes may be identified with them
pub fn mk(t: Term) -> Rc<Term> {
    let r = unsafe { Rc::sym_new(t) };
    std::mem::forget(r.clone());
    r
}
pub fn sort_term(s: Sort) -> Rc<Term> {
    for x in &g().sorts {
        if let Term::Sort(y) = &*x.term { if *y == s { return x.term.clone(); } }
    }
    mk(Term::Sort(s))
}
pub fn sort_of(t: &Rc<Term>) -> Option<Rc<Term>> {
    let a = addr(t);
    if let Some(i) = node_of(a) {
        let s = cs::concb(g().nodes[i].sort);
        g().nodes[i].sort = s;
        return Some(g().sorts[s as usize].term.clone());
    }
    sort_of_term(t)
}
fn width(t: &Rc<Term>) -> Option<usize> {
    match &*sort_of(t)? { Term::Sort(Sort::BitVec(w)) => Some(*w), _ => None }
}
pub fn sort_of_term(t: &Term) -> Option<Rc<Term>> {
    use Operator::*;
    Some(match t {
        Term::Const(c) => match c {
            Constant::Integer(_) => sort_term(Sort::Int),
            Constant::Real(_) => sort_term(Sort::Real),
            Constant::String(_) => sort_term(Sort::String),
            Constant::BitVec(_, w) => sort_term(Sort::BitVec(*w)),
        },
        Term::Var(_, s) => s.clone(),
        Term::App(f, _) => match &*sort_of(f)? { Term::Sort(Sort::Function(v)) => v.last()?.clone(), _ => return None },
        Term::Sort(_) => sort_term(Sort::Type),
        Term::Binder(Binder::Forall | Binder::Exists, ..) => sort_term(Sort::Bool),
        Term::Binder(Binder::Choice, v, _) => v.0[0].1.clone(),
        Term::Binder(Binder::Lambda, v, b) => {
            let mut s: Vec<_> = v.0.iter().map(|x| x.1.clone()).collect();
            s.push(sort_of(b)?);
            sort_term(Sort::Function(s))
        }
        Term::Let(_, b) => sort_of(b)?,
        Term::ParamOp { op, op_args, args } => match op {
            ParamOperator::BvExtract => {
                let i = op_args[0].as_integer()?.to_usize()?;
                let j = op_args[1].as_integer()?.to_usize()?;
                sort_term(Sort::BitVec(i - j + 1))
            }
            ParamOperator::ZeroExtend | ParamOperator::SignExtend => sort_term(Sort::BitVec(op_args[0].as_integer()?.to_usize()? + width(&args[0])?)),
            ParamOperator::RotateLeft | ParamOperator::RotateRight => sort_of(&args[0])?,
            ParamOperator::Repeat => sort_term(Sort::BitVec(op_args[0].as_integer()?.to_usize()? * width(&args[0])?)),
            ParamOperator::IntToBv => sort_term(Sort::BitVec(op_args[0].as_integer()?.to_usize()?)),
            ParamOperator::BvBitOf => sort_term(Sort::Bool),
            ParamOperator::BvIntOf => sort_term(Sort::Int),
            ParamOperator::RePower | ParamOperator::ReLoop => sort_term(Sort::RegLan),
            ParamOperator::ArrayConst => op_args[0].clone(),
            _ => return None,
        },
        Term::Op(op, args) => match op {
            Ite => sort_of(&args[1])?,
            Add | Sub | Mult | Abs => {
                for a in args { if let Term::Sort(Sort::Real) = &*sort_of(a)? { return Some(sort_term(Sort::Real)); } }
                sort_term(Sort::Int)
            }
            RealDiv | ToReal => sort_term(Sort::Real),
            IntDiv | Mod | ToInt | StrLen | IndexOf | StrToCode | StrToInt | Pow2 | Log2 | BvSize | UBvToInt | SBvToInt => sort_term(Sort::Int),
            Select => match &*sort_of(&args[0])? { Term::Sort(Sort::Array(_, y)) => y.clone(), _ => return None },
            Store => sort_of(&args[0])?,
            StrConcat | CharAt | Substring | Replace | ReplaceAll | ReplaceRe | ReplaceReAll | StrFromCode | StrFromInt => sort_term(Sort::String),
            StrToRe | ReNone | ReAll | ReAllChar | ReConcat | ReUnion | ReIntersection | ReKleeneClosure | ReComplement | ReDiff | ReKleeneCross | ReOption | ReRange => sort_term(Sort::RegLan),
            BvAdd | BvSub | BvNot | BvNeg | BvAnd | BvOr | BvMul | BvUDiv | BvURem | BvShl | BvLShr | BvNAnd | BvNOr | BvXor | BvXNor | BvSDiv | BvSRem | BvSMod | BvAShr => sort_of(&args[0])?,
            BvComp => sort_term(Sort::BitVec(1)),
            BvPBbTerm | BvBbTerm => sort_term(Sort::BitVec(args.len())),
            BvConcat => {
                let mut w = 0;
                for a in args { w += width(a)?; }
                sort_term(Sort::BitVec(w))
            }
            BvConst => match &*args[1] { Term::Const(Constant::Integer(i)) => sort_term(Sort::BitVec(i.to_usize()?)), _ => return None },
            RareList => sort_term(Sort::RareList),
            _ => sort_term(Sort::Bool),
        },
    })
}

impl TermPool for SymPool {
    fn add(&mut self, t: Term) -> Rc<Term> { mk(t) }
    fn sort(&self, t: &Rc<Term>) -> Rc<Term> {
        match sort_of(t) { Some(s) => s, None => cs::end("stuck", "sort of a term") }
    }
    fn free_vars(&mut self, t: &Rc<Term>) -> IndexSet<Rc<Term>> {
        match &**t {
            Term::App(f, args) => {
                let mut s = self.free_vars(f);
                for a in args { s.extend(self.free_vars(a)); }
                s
            }
            Term::Op(_, args) | Term::ParamOp { args, .. } => {
                let mut s = IndexSet::new();
                for a in args { s.extend(self.free_vars(a)); }
                s
            }
            Term::Binder(_, l, b) => {
                let mut s = self.free_vars(b);
                for v in l { let x = mk(v.clone().into()); s.swap_remove(&x); }
                s
            }
            Term::Let(l, b) => {
                let mut s = self.free_vars(b);
                for (v, e) in l { let so = self.sort(e); let x = mk((v.clone(), so).into()); s.swap_remove(&x); }
                for (_, e) in l { s.extend(self.free_vars(e)); }
                s
            }
            Term::Var(..) => { let mut s = IndexSet::new(); s.insert(t.clone()); s }
            Term::Const(_) | Term::Sort(_) => IndexSet::new(),
        }
    }
}
