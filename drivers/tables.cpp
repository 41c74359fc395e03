// Uses tables and schemas through their public interface.
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/Schema.hpp>

namespace drv {

void attr(const m::Attribute &a);           // the analysis records the argument
void number(long i);

/*----- traversals ---------------------------------------------------------------------------------------------------*/
void visible(const m::Table &T) { for (auto &a : T) attr(a); }
void hidden(const m::Table &T) { for (auto it = T.begin_hidden(); it != T.end_hidden(); ++it) attr(*it); }
void all(const m::Table &T) { for (auto it = T.begin_all(); it != T.end_all(); ++it) attr(*it); }
void cvisible(const m::Table &T) { for (auto it = T.cbegin(); it != T.cend(); it++) attr(*it); }
void chidden(const m::Table &T) { for (auto it = T.cbegin_hidden(); it != T.cend_hidden(); it++) attr(*it); }
void call(const m::Table &T) { for (auto it = T.cbegin_all(); it != T.cend_all(); it++) attr(*it.operator->()); }
void rvisible(const m::Table &T, long n) { auto it = T.end(); while (n--) { --it; attr(*it); } }
void rhidden(const m::Table &T, long n) { auto it = T.end_hidden(); while (n--) { it--; attr(*it); } }
void rall(const m::Table &T, long n) { auto it = T.end_all(); while (n--) { --it; attr(*it); } }
void jvisible(const m::Table &T, int k) { auto it = T.begin(); it += k; attr(*it); it -= k; attr(*it); }
void jhidden(const m::Table &T, int k) { auto it = T.begin_hidden(); it += k; attr(*it); it -= k; attr(*it); }
void jall(const m::Table &T, int k) { auto it = T.begin_all(); it += k; attr(*it); it -= k; attr(*it); }
void dvisible(const m::Table &T, int i, int j) { auto a = T.begin(), b = T.begin(); while (i--) ++a; while (j--) ++b; number(b - a); number(a == b); }
void dhidden(const m::Table &T, int i, int j) { auto a = T.begin_hidden(), b = T.begin_hidden(); while (i--) ++a; while (j--) ++b; number(b - a); number(a == b); }
void dall(const m::Table &T, int i, int j) { auto a = T.begin_all(), b = T.begin_all(); while (i--) ++a; while (j--) ++b; number(b - a); number(a == b); }

/*----- operations ---------------------------------------------------------------------------------------------------*/
void counts(const m::Table &T) { number(T.num_attrs()); number(T.num_hidden_attrs()); number(T.num_all_attrs()); }
void at_id(m::Table &T, std::size_t id) { attr(T.at(id)); attr(const_cast<const m::Table&>(T).at(id)); }
void sub_id(m::Table &T, std::size_t id) { attr(T[id]); attr(const_cast<const m::Table&>(T)[id]); }
void at_name(m::Table &T, const m::ThreadSafePooledString &n) { attr(T.at(n)); attr(const_cast<const m::Table&>(T).at(n)); }
void sub_name(m::Table &T, const m::ThreadSafePooledString &n) { attr(T[n]); attr(const_cast<const m::Table&>(T)[n]); }
void has(const m::Table &T, const m::ThreadSafePooledString &n) { number(T.has_attribute(n)); }
void convert(m::Table &T, std::size_t id) { number(T.convert_id(id)); }
void push(m::Table &T, m::ThreadSafePooledString n, const m::PrimitiveType *ty) { T.push_back(std::move(n), ty); }
void addpk(m::Table &T, const m::ThreadSafePooledString &n) { T.add_primary_key(n); }
void pk(const m::Table &T) { for (auto &a : T.primary_key()) attr(a.get()); }
void unique(const m::Attribute &a) { number(a.is_unique()); }
void same(const m::Attribute &a, const m::Attribute &b) { number(a == b); number(a != b); }
void eq(const m::Table &T, const m::Table &U) { number(T == U); }
void nameof(const m::Table &T, const m::ThreadSafePooledString &n) { number(T.name() == n); }
m::Schema schema(const m::Table &T) { return T.schema(); }
m::Schema aschema(const m::Table &T, m::ThreadSafePooledOptionalString alias) { return T.schema(alias); }
void mv(std::unique_ptr<m::Table> T) { new m::MultiVersioningTable(std::move(T)); }

/*----- schemas ------------------------------------------------------------------------------------------------------*/
using Id = m::Schema::Identifier;
using entry = m::Schema::entry_type;
void ent(const entry &e);
void slist(const m::Schema &S) { for (auto &e : S) ent(e); }
void snum(const m::Schema &S) { number(S.num_entries()); number(S.empty()); number(S.end() - S.begin()); }
void sfind(m::Schema &S, const Id &i) { auto it = S.find(i); if (it == S.end()) number(-1); else ent(*it); auto c = const_cast<const m::Schema&>(S).find(i); number(c == S.cend()); }
void shas(const m::Schema &S, const Id &i) { number(S.has(i)); }
void satn(m::Schema &S, std::size_t i) { ent(S.at(i)); ent(const_cast<const m::Schema&>(S).at(i)); }
void ssubn(m::Schema &S, std::size_t i) { ent(S[i]); ent(const_cast<const m::Schema&>(S)[i]); }
void sati(m::Schema &S, const Id &i) { auto p = S.at(i); number(p.first); ent(p.second); auto q = const_cast<const m::Schema&>(S).at(i); number(q.first); ent(q.second); }
void ssubi(m::Schema &S, const Id &i) { auto p = S[i]; number(p.first); ent(p.second); auto q = const_cast<const m::Schema&>(S)[i]; number(q.first); ent(q.second); }
void sadd1(m::Schema &S, const entry &e) { S.add(e); }
void sadd2(m::Schema &S, const Id &i, const m::Type *t) { S.add(i, t); }
void sadd3(m::Schema &S, const Id &i, const m::Type *t, entry::constraints_t c) { S.add(i, t, c); }
m::Schema sdedup(const m::Schema &S) { return S.deduplicate(); }
m::Schema sdrop(const m::Schema &S) { return S.drop_constants(); }
void saddall(m::Schema &S, const m::Schema &T) { S += T; }
void sunite(m::Schema &S, const m::Schema &T) { S |= T; }
m::Schema splus(const m::Schema &S, const m::Schema &T) { return S + T; }
m::Schema sor(const m::Schema &S, const m::Schema &T) { return S | T; }
m::Schema sand(const m::Schema &S, const m::Schema &T) { return S & T; }
void seq(const m::Schema &S, const m::Schema &T) { number(S == T); number(S != T); }
void sflags(const entry &e) { number(e.nullable()); number(e.unique()); number(e.references_unique()); }
void ideq(const Id &a, const Id &b) { number(a == b); number(a != b); }
Id idmk(m::ThreadSafePooledOptionalString p, m::ThreadSafePooledString n) { return Id(std::move(p), std::move(n)); }

}
