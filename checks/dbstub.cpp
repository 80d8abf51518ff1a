#include "db.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <memory>
#include <set>
#include <libpq-fe.h>
#include <mysql.h>
#include <errmsg.h>
using std::string; using std::vector;
namespace {
struct Op { string types; db::Row row; };
struct Sess { int id; bool alive, txn, aborted; vector<Op> pend; std::map<string, string> prep; Sess() : alive(true), txn(false), aborted(false) { } };
typedef std::shared_ptr<Sess> SP;
struct Server { vector<Op> rows; std::map<string, int> runs; std::set<SP> open; uint64_t lost; int next, handles; bool pg; Server() : lost(0), next(1), handles(0), pg(false) { } };
Server *S() { static Server *s = new Server; return s; }
void kill(const SP &s) { sim::Atomic atomic; if (!s->alive) return; s->alive = false; s->pend.clear(); s->txn = false; S()->open.erase(s); S()->lost++; sim::log("[db] session %d is lost", s->id); }
void travel() { sim::sleep_ns(50000 + sim::choose(sim::K_DELAY, 4) * 100000); }
struct Res { bool ok, lost; string err, tag; vector<Op> rows; string types; bool select; Res() : ok(true), lost(false), select(false) { } };
string norm(const string &q) { string r; int want = 1; for (size_t i = 0; i < q.size(); i++) { if (q[i] == '$') { int k = 0; while (i + 1 < q.size() && isdigit(q[i + 1])) k = k * 10 + (q[++i] - '0'); r += k == want++ ? "?" : "$"; } else r += q[i]; } while (!r.empty() && (r[r.size() - 1] == ';' || isspace(r[r.size() - 1]))) r.resize(r.size() - 1); return r; }
int nparams(const string &q) { int n = 0; for (size_t i = 0; i < q.size(); i++) n += q[i] == '?'; return n; }
string types_of(const string &q) { size_t p = q.find(" t_"); if (p == string::npos) return ""; p += 3; size_t e = p; while (e < q.size() && isalpha(q[e])) e++; return q.substr(p, e - p); }
int txn_word(const string &q) { string u; for (size_t i = 0; i < q.size(); i++) u += toupper(q[i]); if (u == "BEGIN" || u == "START TRANSACTION" || u == "BEGIN TRANSACTION" || u == "BEGIN WORK") return 1; if (u == "COMMIT" || u == "END" || u == "COMMIT WORK") return 2; if (u == "ROLLBACK" || u == "ROLLBACK WORK" || u == "ABORT") return 3; return 0; }
bool known(const string &q) { return txn_word(q) || ((q.compare(0, 14, "INSERT INTO t_") == 0 || q.compare(0, 14, "SELECT * FROM ") == 0) && !types_of(q).empty()) || q == "INSERT INTO refused VALUES (?)" || q == "SELECT 1"; }
bool coerce(char t, db::Val &v) {
  if (v.null) return true; char *e; char b[64];
  switch (t) {
    case 's': return true;
    case 'i': { long long x = strtoll(v.s.c_str(), &e, 10); if (*e || v.s.empty() || x < -2147483648LL || x > 2147483647LL) return false; snprintf(b, 64, "%lld", x); v.s = b; return true; }
    case 'l': { long long x = strtoll(v.s.c_str(), &e, 10); if (*e || v.s.empty()) return false; snprintf(b, 64, "%lld", x); v.s = b; return true; }
    case 'd': { double x = strtod(v.s.c_str(), &e); if (*e || v.s.empty()) return false; snprintf(b, 64, "%.17g", x); v.s = b; return true; }
    case 'b': { if (v.s == "true" || v.s == "t" || v.s == "1") v.s = "t"; else if (v.s == "false" || v.s == "f" || v.s == "0") v.s = "f"; else return false; return true; }
    case 't': { int y, mo, d, h, mi, s; char f[16] = ""; int n = sscanf(v.s.c_str(), "%d-%d-%d %d:%d:%d.%6[0-9]", &y, &mo, &d, &h, &mi, &s, f); if (n < 6) return false; string fr = f; while (!fr.empty() && fr[fr.size() - 1] == '0') fr.resize(fr.size() - 1); snprintf(b, 64, "%04d-%02d-%02d %02d:%02d:%02d", y, mo, d, h, mi, s); v.s = b; if (!fr.empty()) v.s += "." + fr; return true; }
  }
  return false;
}
// executes one statement in a session (the server side)
Res serve(const SP &s, const string &q, const vector<db::Val> &args) {
  sim::Atomic atomic; Res r; int w = txn_word(q); Server *S = ::S();
  sim::log("[db] session %d: %s%s", s->id, q.c_str(), args.empty() || args[0].null ? "" : (" [" + args[0].s.substr(0, 20) + "]").c_str());
  if (s->aborted && w != 2 && w != 3) { r.ok = false; r.err = "current transaction is aborted, commands ignored until end of transaction block"; return r; }
  if (w == 1) { if (!S->pg) { for (auto &o : s->pend) S->rows.push_back(o); s->pend.clear(); } s->txn = true; r.tag = "BEGIN"; return r; }
  if (w == 2) { r.tag = s->aborted ? "ROLLBACK" : "COMMIT"; if (!s->aborted) for (auto &o : s->pend) S->rows.push_back(o); s->pend.clear(); s->txn = s->aborted = false; return r; }
  if (w == 3) { s->pend.clear(); s->txn = s->aborted = false; r.tag = "ROLLBACK"; return r; }
  auto error = [&](const string &e) { r.ok = false; r.err = e; if (S->pg && s->txn) s->aborted = true; };
  if (!known(q)) { error("syntax error"); return r; }
  if ((int)args.size() != nparams(q)) { error("wrong number of parameters"); return r; }
  if (q == "SELECT 1") { r.select = true; r.types = "i"; Op o; o.types = "i"; o.row.push_back(db::Val("1")); r.rows.push_back(o); r.tag = "SELECT 1"; return r; }
  if (q.compare(0, 19, "INSERT INTO refused") == 0) { error("duplicate key value violates unique constraint"); return r; }
  string t = types_of(q);
  if (q[0] == 'I') {
    Op o; o.types = t; o.row = args; if (args.size() != t.size()) { error("wrong number of columns"); return r; } for (size_t i = 0; i < t.size(); i++) if (!coerce(t[i], o.row[i])) { error("invalid input syntax: '" + o.row[i].s + "'"); return r; }
    S->runs[o.row[0].s]++; if (s->txn) s->pend.push_back(o); else S->rows.push_back(o); r.tag = "INSERT 0 1"; return r;
  }
  r.select = true; r.types = t; for (int pass = 0; pass < 2; pass++) for (auto &o : pass ? s->pend : S->rows) if (o.types == t && (args.empty() || o.row[0] == args[0])) r.rows.push_back(o); r.tag = "SELECT"; return r;
}
// one round trip; the connection may break before or after the statement was executed
Res trip(const SP &s, const string &q, const vector<db::Val> &args, bool prepare_only) {
  Res r; travel();
  if (s->alive && sim::chance(sim::K_CRASH, 0.02)) db::crash();
  if (s->alive && sim::chance(sim::K_DBFAIL, 0.06)) kill(s);
  if (!s->alive) { r.ok = false; r.lost = true; r.err = "server closed the connection unexpectedly"; return r; }
  if (prepare_only) { if (s->aborted && txn_word(q) < 2) { r.ok = false; r.err = "current transaction is aborted"; } else if (!known(q)) { r.ok = false; r.err = "syntax error"; if (S()->pg && s->txn) s->aborted = true; } }
  else r = serve(s, q, args);
  travel();
  if (s->alive && sim::chance(sim::K_DBFAIL, 0.06)) { sim::log("[db] session %d: the reply is lost", s->id); kill(s); }
  if (!s->alive) { Res l; l.ok = false; l.lost = true; l.err = "server closed the connection unexpectedly"; return l; }
  return r;
}
SP open_session() { travel(); if (sim::chance(sim::K_CONNFAIL, 0.1)) { sim::log("[db] connection refused"); return SP(); } sim::Atomic atomic; SP s(new Sess); s->id = S()->next++; S()->open.insert(s); sim::log("[db] session %d opened", s->id); return s; }
void close_session(SP &s) { sim::Atomic atomic; if (s && s->alive) { s->alive = false; s->pend.clear(); S()->open.erase(s); sim::log("[db] session %d closed", s->id); } s.reset(); }
}
namespace db {
vector<Rec> find(const string &key) { sim::Atomic atomic; vector<Rec> v; for (auto &o : S()->rows) if (!o.row[0].null && o.row[0].s == key) { Rec r; r.row = o.row; r.types = o.types; v.push_back(r); } return v; }
int executed(const string &key) { sim::Atomic atomic; return S()->runs.count(key) ? S()->runs[key] : 0; }
int sessions() { return S()->open.size(); }
int handles() { return S()->handles; }
void seed_row(const string &types, const Row &row) { Op o; o.types = types; o.row = row; for (size_t i = 0; i < types.size(); i++) coerce(types[i], o.row[i]); S()->rows.push_back(o); }
uint64_t losses() { return S()->lost; }
void crash() { sim::Atomic atomic; sim::log("[db] the server restarts"); std::set<SP> o = S()->open; for (auto &s : o) kill(s); }
void reset(bool pg) { *S() = Server(); S()->pg = pg; }
}
// ---- libpq -----------------------------------------------------------------
struct pg_conn { SP s; bool bad; string info, err; };
struct pg_result { ExecStatusType st; string err, tag; Res r; };
extern "C" {
int PQisthreadsafe(void) { return 1; }
PGconn *PQconnectdb(const char *info) { pg_conn *c = new pg_conn; S()->handles++; c->info = info; c->s = open_session(); c->bad = !c->s; return c; }
ConnStatusType PQstatus(const PGconn *c) { if (!c) return CONNECTION_BAD; return c->bad ? CONNECTION_BAD : CONNECTION_OK; }
void PQfinish(PGconn *c) { if (!c) return; close_session(c->s); S()->handles--; delete c; }
void PQreset(PGconn *c) { if (!c) return; close_session(c->s); c->s = open_session(); c->bad = !c->s; }
char *PQerrorMessage(const PGconn *c) { return (char *)(c ? c->err.c_str() : ""); }
PGTransactionStatusType PQtransactionStatus(const PGconn *c) { if (!c || c->bad) return PQTRANS_UNKNOWN; return c->s->aborted ? PQTRANS_INERROR : c->s->txn ? PQTRANS_INTRANS : PQTRANS_IDLE; }
static PGresult *mk(PGconn *c, const Res &r) {
  if (r.lost) { c->bad = true; c->err = r.err; if (sim::choose(sim::K_WORK, 4) == 1) return NULL; }
  pg_result *p = new pg_result; S()->handles++; p->r = r; p->err = r.err; p->tag = r.tag; p->st = !r.ok ? PGRES_FATAL_ERROR : r.select ? PGRES_TUPLES_OK : PGRES_COMMAND_OK; c->err = r.err; return p;
}
static vector<db::Val> pargs(int n, const char *const *v) { vector<db::Val> a; for (int i = 0; i < n; i++) a.push_back(v && v[i] ? db::Val(v[i]) : db::Val()); return a; }
static PGresult *dead(PGconn *c) { Res r; r.ok = false; r.err = "no connection to the server"; (void)c; if (sim::choose(sim::K_WORK, 4) == 1) return NULL; pg_result *p = new pg_result; S()->handles++; p->err = r.err; p->st = PGRES_FATAL_ERROR; return p; }
PGresult *PQprepare(PGconn *c, const char *name, const char *q, int, const Oid *) { if (c->bad) return dead(c); string k = norm(q); SP s = c->s; Res r = trip(s, k, vector<db::Val>(), true); if (!*name) s->prep.erase(""); if (r.ok) { if (*name && s->prep.count(name)) { r.ok = false; r.err = "prepared statement already exists"; } else s->prep[name] = k; } return mk(c, r); }
PGresult *PQexecPrepared(PGconn *c, const char *name, int n, const char *const *v, const int *, const int *, int) {
  if (c->bad) return dead(c); SP s = c->s; if (s->alive && !s->prep.count(name)) { Res r; travel(); r.ok = false; r.err = "prepared statement does not exist"; if (s->txn) s->aborted = true; return mk(c, r); }
  return mk(c, trip(s, s->prep[name], pargs(n, v), false)); }
PGresult *PQexecParams(PGconn *c, const char *q, int n, const Oid *, const char *const *v, const int *, const int *, int) { if (c->bad) return dead(c); return mk(c, trip(c->s, norm(q), pargs(n, v), false)); }
PGresult *PQexec(PGconn *c, const char *q) { if (c->bad) return dead(c); string k = norm(q); if (k.compare(0, 11, "DEALLOCATE ") == 0) { string n = k.substr(11); if (n.size() > 1 && n[0] == '"') n = n.substr(1, n.size() - 2); SP s = c->s; Res r = trip(s, "SELECT 1", vector<db::Val>(), true); if (r.ok) { s->prep.erase(n); r.tag = "DEALLOCATE"; } return mk(c, r); } return mk(c, trip(c->s, k, vector<db::Val>(), false)); }
ExecStatusType PQresultStatus(const PGresult *r) { return r ? r->st : PGRES_FATAL_ERROR; }
char *PQresultErrorMessage(const PGresult *r) { return (char *)(r ? r->err.c_str() : ""); }
void PQclear(PGresult *r) { if (!r) return; S()->handles--; delete r; }
int PQnfields(const PGresult *r) { return r ? r->r.types.size() : 0; }
char *PQfname(const PGresult *, int) { return (char *)"c"; }
Oid PQftype(const PGresult *r, int i) { switch (r->r.types[i]) { case 's': return i % 2 ? 1043 : 25; case 'i': return i % 2 ? 21 : 23; case 'l': return 20; case 'd': return i % 2 ? 700 : 701; case 'b': return 16; case 't': return 1114; } return 705; }
int PQntuples(const PGresult *r) { return r ? r->r.rows.size() : 0; }
static db::Val &cell(const PGresult *r, int row, int col, const char *f) { if (row < 0 || row >= (int)r->r.rows.size() || col < 0 || col >= (int)r->r.types.size()) sim::fail("client-misuse", "%s(%d, %d) outside of the result", f, row, col); return const_cast<pg_result *>(r)->r.rows[row].row[col]; }
char *PQgetvalue(const PGresult *r, int row, int col) { db::Val &v = cell(r, row, col, "PQgetvalue"); return (char *)(v.null ? "" : v.s.c_str()); }
int PQgetisnull(const PGresult *r, int row, int col) { return cell(r, row, col, "PQgetisnull").null; }
int PQgetlength(const PGresult *r, int row, int col) { db::Val &v = cell(r, row, col, "PQgetlength"); return v.null ? 0 : v.s.size(); }
char *PQcmdStatus(PGresult *r) { return (char *)(r ? r->tag.c_str() : ""); }
char *PQcmdTuples(PGresult *) { return (char *)"1"; }
}
// ---- libmysqlclient ----------------------------------------------------------
namespace {
struct My; struct St { My *c; SP s; string q, err; unsigned eno; bool prepared, executed, have; Res r; size_t at; vector<MYSQL_BIND> par, res; };
struct My { SP s; string err; unsigned eno; std::set<St *> st; bool autoc; };
struct Meta { vector<MYSQL_FIELD> f; };
My *my(MYSQL *m, const char *f) { if (!m) sim::fail("client-misuse", "%s(NULL)", f); return (My *)m; }
St *stm(MYSQL_STMT *m, const char *f) { if (!m) sim::fail("client-misuse", "%s(NULL)", f); return (St *)m; }
int myerr(My *c, const Res &r) { if (r.ok) { c->eno = 0; c->err = ""; return 0; } c->eno = r.lost ? (sim::choose(sim::K_WORK, 2) ? CR_SERVER_GONE_ERROR : CR_SERVER_LOST) : 1064; c->err = r.err; return 1; }
enum_field_types ftype(char t) { switch (t) { case 's': return MYSQL_TYPE_STRING; case 'i': return MYSQL_TYPE_LONG; case 'l': return MYSQL_TYPE_LONGLONG; case 'd': return MYSQL_TYPE_DOUBLE; case 'b': return MYSQL_TYPE_TINY; default: return MYSQL_TYPE_TIMESTAMP; } }
bool store(const db::Val &v, char t, MYSQL_BIND &b) {           // returns whether the value was truncated
  if (b.is_null) *b.is_null = v.null; if (v.null) return false; if (b.buffer_type != ftype(t) && !(t == 's' && (b.buffer_type == MYSQL_TYPE_BLOB || b.buffer_type == MYSQL_TYPE_VAR_STRING))) sim::fail("client-misuse", "result bound with another type");
  auto need = [&](unsigned long n) { if (t != 's' && b.buffer_length < n && b.buffer_length) sim::fail("client-misuse", "result buffer too small"); if (b.length) *b.length = n; };
  switch (t) {
    case 's': { unsigned long n = v.s.size(); if (b.length) *b.length = n; unsigned long k = std::min(n, b.buffer_length); memcpy(b.buffer, v.s.data(), k); return n > b.buffer_length; }
    case 'i': need(4); *(int *)b.buffer = atoi(v.s.c_str()); return false; case 'l': need(8); *(long long *)b.buffer = strtoll(v.s.c_str(), 0, 10); return false;
    case 'd': need(8); *(double *)b.buffer = strtod(v.s.c_str(), 0); return false; case 'b': need(1); *(char *)b.buffer = v.s == "t"; return false;
    default: { need(sizeof(MYSQL_TIME)); MYSQL_TIME *m = (MYSQL_TIME *)b.buffer; memset(m, 0, sizeof *m); char f[16] = ""; sscanf(v.s.c_str(), "%u-%u-%u %u:%u:%u.%6[0-9]", &m->year, &m->month, &m->day, &m->hour, &m->minute, &m->second, f); string fr = f; fr.resize(6, '0'); m->second_part = atoi(fr.c_str()); return false; }
  }
}
db::Val load(const MYSQL_BIND &b) {
  if (b.buffer_type == MYSQL_TYPE_NULL || (b.is_null && *b.is_null)) return db::Val(); char t[64];
  switch (b.buffer_type) {
    case MYSQL_TYPE_LONG: snprintf(t, 64, "%d", *(int *)b.buffer); return db::Val(t); case MYSQL_TYPE_LONGLONG: snprintf(t, 64, "%lld", *(long long *)b.buffer); return db::Val(t); case MYSQL_TYPE_TINY: snprintf(t, 64, "%d", *(signed char *)b.buffer); return db::Val(t); case MYSQL_TYPE_SHORT: snprintf(t, 64, "%d", *(short *)b.buffer); return db::Val(t);
    case MYSQL_TYPE_DOUBLE: snprintf(t, 64, "%.17g", *(double *)b.buffer); return db::Val(t); case MYSQL_TYPE_FLOAT: snprintf(t, 64, "%.9g", *(float *)b.buffer); return db::Val(t);
    case MYSQL_TYPE_TIMESTAMP: case MYSQL_TYPE_DATETIME: { MYSQL_TIME *m = (MYSQL_TIME *)b.buffer; snprintf(t, 64, "%04u-%02u-%02u %02u:%02u:%02u.%06lu", m->year, m->month, m->day, m->hour, m->minute, m->second, m->second_part); return db::Val(t); }
    default: { unsigned long n = b.length ? *b.length : b.buffer_length; return db::Val(n ? string((char *)b.buffer, n) : string()); }   // strings, blobs and decimals
  }
}
}
extern "C" {
MYSQL *STDCALL mysql_init(MYSQL *m) { if (m) sim::fail("client-misuse", "mysql_init(not NULL) is not supported"); if (sim::chance(sim::K_ALLOCFAIL, 0.05)) return NULL; My *c = new My; S()->handles++; c->eno = 0; c->autoc = true; return (MYSQL *)c; }
MYSQL *STDCALL mysql_real_connect(MYSQL *m, const char *, const char *, const char *, const char *, unsigned, const char *, unsigned long) { My *c = my(m, "mysql_real_connect"); c->s = open_session(); if (!c->s) { c->eno = 2003; c->err = "can't connect"; return NULL; } return m; }
void STDCALL mysql_close(MYSQL *m) { if (!m) return; My *c = (My *)m; close_session(c->s); for (auto s : c->st) { s->c = 0; } S()->handles--; delete c; }
int STDCALL mysql_ping(MYSQL *m) { My *c = my(m, "mysql_ping"); return myerr(c, trip(c->s, "SELECT 1", vector<db::Val>(), true)); }
const char *STDCALL mysql_error(MYSQL *m) { return my(m, "mysql_error")->err.c_str(); }
unsigned STDCALL mysql_errno(MYSQL *m) { return my(m, "mysql_errno")->eno; }
int STDCALL mysql_real_query(MYSQL *m, const char *q, unsigned long n) { My *c = my(m, "mysql_query"); return myerr(c, trip(c->s, norm(string(q, n)), vector<db::Val>(), false)); }
int STDCALL mysql_query(MYSQL *m, const char *q) { return mysql_real_query(m, q, strlen(q)); }
my_bool STDCALL mysql_commit(MYSQL *m) { return mysql_query(m, "COMMIT"); }
my_bool STDCALL mysql_rollback(MYSQL *m) { return mysql_query(m, "ROLLBACK"); }
int STDCALL mysql_options(MYSQL *, enum mysql_option, const void *) { return 0; }
my_bool STDCALL mysql_thread_init(void) { return 0; }
void STDCALL mysql_thread_end(void) { }
MYSQL_STMT *STDCALL mysql_stmt_init(MYSQL *m) { My *c = my(m, "mysql_stmt_init"); if (sim::chance(sim::K_ALLOCFAIL, 0.05)) return NULL; St *s = new St; S()->handles++; s->c = c; s->eno = 0; s->prepared = s->executed = s->have = false; s->at = 0; c->st.insert(s); return (MYSQL_STMT *)s; }
static int sterr(St *s, const Res &r) { if (r.ok) { s->eno = 0; s->err = ""; return 0; } s->eno = r.lost ? (sim::choose(sim::K_WORK, 2) ? CR_SERVER_GONE_ERROR : CR_SERVER_LOST) : 1064; s->err = r.err; return 1; }
static int stlost(St *s) { s->eno = CR_SERVER_LOST; s->err = "lost connection"; return 1; }
int STDCALL mysql_stmt_prepare(MYSQL_STMT *t, const char *q, unsigned long n) { St *s = stm(t, "mysql_stmt_prepare"); if (!s->c) return stlost(s); s->s = s->c->s; s->q = norm(string(q, n)); int e = sterr(s, trip(s->s, s->q, vector<db::Val>(), true)); s->prepared = !e; return e; }
unsigned STDCALL mysql_stmt_errno(MYSQL_STMT *t) { return stm(t, "mysql_stmt_errno")->eno; }
const char *STDCALL mysql_stmt_error(MYSQL_STMT *t) { return stm(t, "mysql_stmt_error")->err.c_str(); }
my_bool STDCALL mysql_stmt_close(MYSQL_STMT *t) { if (!t) return 1; St *s = (St *)t; if (s->c) s->c->st.erase(s); S()->handles--; delete s; return 0; }
unsigned long STDCALL mysql_stmt_param_count(MYSQL_STMT *t) { return nparams(stm(t, "mysql_stmt_param_count")->q); }
MYSQL_RES *STDCALL mysql_stmt_result_metadata(MYSQL_STMT *t) { St *s = stm(t, "mysql_stmt_result_metadata"); if (s->q.compare(0, 6, "SELECT")) return NULL; string ty = s->q == "SELECT 1" ? "i" : types_of(s->q); Meta *m = new Meta; S()->handles++; for (size_t i = 0; i < ty.size(); i++) { MYSQL_FIELD f; memset(&f, 0, sizeof f); f.type = ftype(ty[i]); if (ty[i] == 's' && i % 2) f.type = MYSQL_TYPE_BLOB; m->f.push_back(f); } return (MYSQL_RES *)m; }
MYSQL_FIELD *STDCALL mysql_fetch_fields(MYSQL_RES *r) { return ((Meta *)r)->f.data(); }
unsigned STDCALL mysql_num_fields(MYSQL_RES *r) { return ((Meta *)r)->f.size(); }
void STDCALL mysql_free_result(MYSQL_RES *r) { if (!r) return; S()->handles--; delete (Meta *)r; }
my_bool STDCALL mysql_stmt_bind_param(MYSQL_STMT *t, MYSQL_BIND *b) { St *s = stm(t, "mysql_stmt_bind_param"); int n = nparams(s->q); s->par.assign(b, b + n); return 0; }
int STDCALL mysql_stmt_execute(MYSQL_STMT *t) { St *s = stm(t, "mysql_stmt_execute"); if (!s->c || !s->prepared) return stlost(s); vector<db::Val> a; for (auto &b : s->par) a.push_back(load(b)); s->r = trip(s->s, s->q, a, false); s->at = 0; s->executed = s->r.ok; return sterr(s, s->r); }
my_bool STDCALL mysql_stmt_bind_result(MYSQL_STMT *t, MYSQL_BIND *b) { St *s = stm(t, "mysql_stmt_bind_result"); size_t n = s->r.types.size(); if (!n) return 1; s->res.assign(b, b + n); return 0; }
int STDCALL mysql_stmt_fetch(MYSQL_STMT *t) {
  St *s = stm(t, "mysql_stmt_fetch"); if (!s->executed || !s->r.select) { s->eno = 2053; s->err = "no result"; return 1; }
  if (s->c && s->s->alive && sim::chance(sim::K_DBFAIL, 0.01)) kill(s->s);
  if (!s->c || !s->s->alive) { if (s->at < s->r.rows.size()) { s->executed = false; return stlost(s); } return MYSQL_NO_DATA; }
  if (s->at >= s->r.rows.size()) return MYSQL_NO_DATA; bool tr = false; db::Row &row = s->r.rows[s->at++].row; for (size_t i = 0; i < row.size() && i < s->res.size(); i++) tr |= store(row[i], s->r.types[i], s->res[i]); s->have = true; return tr ? MYSQL_DATA_TRUNCATED : 0;
}
int STDCALL mysql_stmt_fetch_column(MYSQL_STMT *t, MYSQL_BIND *b, unsigned col, unsigned long off) { St *s = stm(t, "mysql_stmt_fetch_column"); if (!s->have || col >= s->r.types.size() || off) return 1; store(s->r.rows[s->at - 1].row[col], s->r.types[col], *b); return 0; }
int STDCALL mysql_stmt_store_result(MYSQL_STMT *) { return 0; }
my_bool STDCALL mysql_stmt_free_result(MYSQL_STMT *t) { stm(t, "mysql_stmt_free_result")->executed = false; return 0; }
my_bool STDCALL mysql_stmt_reset(MYSQL_STMT *) { return 0; }
unsigned long long STDCALL mysql_stmt_affected_rows(MYSQL_STMT *) { return 1; }
unsigned long long STDCALL mysql_affected_rows(MYSQL *) { return 1; }
}
