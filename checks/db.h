// A small simulated SQL server with the client interfaces of libpq and libmysqlclient in front of it.
// Table names carry their column types: t_sild... (s text, i int32, l int64, d double, b bool, t timestamp); the first column is the key.
#ifndef VERIF_DB_H
#define VERIF_DB_H
#include "../sim/sim.h"
#include <string>
#include <vector>
#include <map>
namespace db {
struct Val { bool null; std::string s; Val() : null(true) { } explicit Val(const std::string &x) : null(false), s(x) { } bool operator==(const Val &o) const { return null == o.null && (null || s == o.s); } };
typedef std::vector<Val> Row;
struct Rec { Row row; std::string types; };
std::vector<Rec> find(const std::string &key);      // committed rows with this key
int executed(const std::string &key);               // how often an INSERT with this key was executed (committed or not)
int sessions();                                     // open sessions
int handles();                                      // client objects (connections, statements, results) not yet released
void seed_row(const std::string &types, const Row &row);
uint64_t losses();                                  // connections lost so far
void crash();                                       // the server restarts: every session ends
void reset(bool pg);
}
#endif
