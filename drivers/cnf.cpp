// Uses the conversion to conjunctive normal form through its public interface.
#include <mutable/IR/CNF.hpp>

namespace drv {

using namespace m;
void clause();                                          // the analysis records these calls
void literal(const ast::Expr &e, bool negative);
void number(long i);

void emit(const cnf::CNF &f) { for (auto &c : f) { clause(); for (auto p : c) literal(p.expr(), p.negative()); } }
void emit(const cnf::Clause &c) { clause(); for (auto p : c) literal(*p, p.negative()); }

void conv(const ast::Expr &e) { emit(cnf::to_CNF(e)); }
void pred(const ast::Expr &e, bool neg)
{
    auto p = cnf::Predicate::Create(&e, neg);
    literal(p.expr(), p.negative());
    literal(*p.operator->(), neg ? cnf::Predicate::Negative(&e).negative() : cnf::Predicate::Positive(&e).negative());
    auto q = not p;
    literal(q.expr(), q.negative());
    number(p == p); number(p == q); number(p != q); number((not q) == p);
}
void peq(const ast::Expr &e, bool n, const ast::Expr &f, bool m) { number(cnf::Predicate::Create(&e, n) == cnf::Predicate::Create(&f, m)); number(cnf::Predicate::Create(&e, n) != cnf::Predicate::Create(&f, m)); }
void pequi(const ast::Expr &e, bool n) { number(cnf::Predicate::Create(&e, n).is_equi()); }
void pnull(const ast::Expr &e, bool n) { number(cnf::Predicate::Create(&e, n).can_be_null()); }
void cequi(const cnf::Clause &c) { number(c.is_equi()); }
void cnull(const cnf::Clause &c) { number(c.can_be_null()); }
void fequi(const cnf::CNF &c) { number(c.is_equi()); }
void fnull(const cnf::CNF &c) { number(c.can_be_null()); }
void add(cnf::Clause &c, const ast::Expr &e, bool n) { c.push_back(cnf::Predicate::Create(&e, n)); }
void addc(cnf::CNF &f, const cnf::Clause &c) { f.push_back(c); }
void cinit(cnf::Clause *&c) { c = new cnf::Clause(); }
void cor(const cnf::Clause &c, const cnf::Clause &d) { emit(c or d); }
void cand(const cnf::Clause &c, const cnf::Clause &d) { emit(c and d); }
void cnot(const cnf::Clause &c) { emit(not c); }
void forr(const cnf::CNF &c, const cnf::CNF &d) { emit(c or d); }
void fand(const cnf::CNF &c, const cnf::CNF &d) { emit(c and d); }
void fnot(const cnf::CNF &c) { emit(not c); }
void crel(const cnf::Clause &c, const cnf::Clause &d) { number(c <= d); number(c >= d); number(c == d); number(c != d); }
void frel(const cnf::CNF &c, const cnf::CNF &d) { number(c <= d); number(c >= d); number(c == d); number(c != d); }

}
