// Uses expressions through their public interface.
#include <mutable/parse/AST.hpp>
#include <mutable/catalog/Schema.hpp>

namespace drv {

using namespace m;
using namespace m::ast;
void node(const Expr &e);                               // the analysis records these calls
void number(long i);
void hash(std::uint64_t h);
void ent(const Schema::entry_type &e);

void eq(const Expr &e, const Expr &f) { number(e == f); number(e != f); hash(e.hash()); hash(f.hash()); }
void constant(const Expr &e) { number(e.is_constant()); }
void nullable(const Expr &e) { number(e.can_be_null()); }
void vars(const Expr &e) { number(e.contains_free_variables()); number(e.contains_bound_variables()); }
void kinds(const Constant &c) { number(c.is_null()); number(c.is_bool()); number(c.is_number()); number(c.is_integer()); number(c.is_float()); number(c.is_string()); number(c.is_date()); number(c.is_datetime()); }
void required(const Expr &e) { Schema S = e.get_required(); for (auto &x : S) ent(x); }
void naming(const Designator &d) { number(d.has_explicit_table_name()); number(d.has_table_name()); number(d.is_identifier()); }
void type(const Expr &e) { number(e.has_type()); number(e.type() != nullptr); }

template<typename T> void emit(T &e) { node(e); }
void pre(const Expr &e) { visit([](auto &x) { emit(x); }, e, m::tag<ConstPreOrderExprVisitor>()); }
void post(const Expr &e) { visit([](auto &x) { emit(x); }, e, m::tag<ConstPostOrderExprVisitor>()); }
void mpre(Expr &e) { visit([](auto &x) { emit(x); }, e, m::tag<PreOrderExprVisitor>()); }
void mpost(Expr &e) { visit([](auto &x) { emit(x); }, e, m::tag<PostOrderExprVisitor>()); }
void skip(const Expr &e)
{
    visit(overloaded {
        [](auto &x) { emit(x); },
        [](const BinaryExpr &x) { emit(x); if (x.op() == TK_SLASH) throw visit_skip_subtree(); },
        [](const UnaryExpr &x) { emit(x); if (x.op() == TK_TILDE) throw visit_skip_subtree(); },
        [](const FnApplicationExpr &x) { emit(x); if (x.args.size() == 2) throw visit_skip_subtree(); },
    }, e, m::tag<ConstPreOrderExprVisitor>());
}
void stop(const Expr &e) { visit(overloaded { [](auto &x) { emit(x); }, [](const Constant &x) { emit(x); throw visit_stop_recursion(); } }, e, m::tag<ConstPreOrderExprVisitor>()); }
void one(const Expr &e) { visit([](auto &x) { emit(x); }, e, m::tag<ConstASTExprVisitor>()); }

}
