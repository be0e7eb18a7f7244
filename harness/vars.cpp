// Histories of the variable registry: the solver chooses every operation and its argument.
#include "common.hh"
#include <sstream>
struct Reg { std::vector<std::pair<std::string, variable>> live; std::vector<size_t> dead; };
static int find(const Reg &r, const std::string &n) { for (size_t i = 0; i < r.live.size(); ++i) if (r.live[i].first == n) return (int)i; return -1; }
static void consistent(const Reg &r) {
  for (auto &x : r.live) { sx_check(x.second.name() == x.first, "name is returned unchanged"); sx_check(x.second.str() == x.first, "name is returned unchanged"); std::ostringstream o; o << x.second; sx_check(o.str() == x.first, "printed form is the name"); variable again(x.first); sx_check(again == x.second, "same name, same variable"); sx_check(variable::get_variable(x.second.serial()) == x.second, "same serial, same variable"); sx_check(std::hash<variable>()(again) == std::hash<variable>()(x.second), "equal variables hash alike"); }
  for (size_t i = 0; i < r.live.size(); ++i) for (size_t j = 0; j < i; ++j) { const variable &a = r.live[i].second, &b = r.live[j].second; sx_check(!(a == b) && a != b, "different names, different variables"); sx_check((a < b) != (b < a) && (a > b) == (b < a) && (a <= b) == !(b < a) && (a >= b) == !(a < b), "order of different variables"); }
}
static void step(Reg &r, int k, const std::vector<std::string> &pool, bool extra) {
  int n = pool.size(), op = sx_choice(nm("op", k).c_str(), extra ? 5 : 3); std::string a; if (op != 1 && op != 3) a = pool[n > 1 ? sx_choice(nm("name", k).c_str(), n) : 0];
  if (op == 0) { variable v(a); int i = find(r, a); if (i >= 0) sx_check(v == r.live[i].second, "same name, same variable"); else r.live.push_back({a, v}); sx_check(v.name() == a, "name is returned unchanged"); }
  else if (op == 1) { variable v = variable::new_variable(); std::string s = v.name(); sx_check(!s.empty(), "automatic name is not empty"); sx_check(find(r, s) < 0, "automatic name is new"); for (auto &x : r.live) sx_check(v != x.second, "automatic variable is new"); r.live.push_back({s, v}); sx_reach("automatic"); }
  else if (op == 2) { int i = find(r, a); variable::del_variable(a); if (i >= 0) { r.dead.push_back(r.live[i].second.serial()); r.live.erase(r.live.begin() + i); sx_reach("deleted"); } }
  else if (op == 3) { if (r.live.empty()) return; int i = (int)r.live.size() - 1; size_t s = r.live[i].second.serial(); variable::del_variable(s); r.live.erase(r.live.begin() + i); variable::del_variable(s); variable::del_variable(s + 100); sx_reach("deleted"); }
  else { if (find(r, a) >= 0) return; variable v = variable::new_variable(a); for (auto &x : r.live) sx_check(v != x.second, "new variable is new"); r.live.push_back({a, v}); }
  consistent(r);
}
static void history(int n, const std::vector<std::string> &pool, bool extra, Reg r = Reg()) { for (int k = 0; k < n; ++k) step(r, k, pool, extra); sx_reach("history"); }
SX_HARNESS(reg_names) { history(6, {"a", "b"}, false); }
SX_HARNESS(reg_all) { history(4, {"a", "#var_1", "b"}, true); }
SX_HARNESS(reg_auto) { history(6, {"#var_1", "#var_2"}, false); }
SX_HARNESS(reg_auto2) { history(4, {"#var_1", "#var_1_", "#var_2"}, true); }
SX_HARNESS(reg_long) { history(8, {"a"}, false); }
SX_HARNESS(reg_reuse) { Reg r; for (const char *s : {"p", "q", "s"}) r.live.push_back({s, variable(std::string(s))}); int i = sx_choice("first", 3); std::string d = r.live[i].first; variable::del_variable(d); r.live.erase(r.live.begin() + i); history(4, {"p", "q", "t"}, false, r); }
SX_HARNESS(reg_reuse_auto) { Reg r; for (const char *s : {"p", "#var_3", "s"}) r.live.push_back({s, variable(std::string(s))}); for (int k = 0; k < 2; ++k) { int i = sx_choice(nm("d", k).c_str(), (int)r.live.size()); std::string d = r.live[i].first; variable::del_variable(d); r.live.erase(r.live.begin() + i); } history(5, {"#var_1", "#var_3"}, false, r); }
// names with every byte value
SX_HARNESS(reg_bytes) { int c = (int)sx_value(sx_int("c", 1, 255)), d = (int)sx_value(sx_int("d", 0, 3)); std::string a(1, (char)c), b = d ? a + std::string(d, 'x') : std::string("q"); variable u(a), v(b); sx_check((u == v) == (a == b), "equal exactly when the names are equal"); sx_check(u.name() == a && v.name() == b, "name is returned unchanged"); Reg r; r.live.push_back({a, u}); if (a != b) r.live.push_back({b, v}); consistent(r); sx_reach("bytes"); }
SX_HARNESS(reg_long_names) { int n = (int)sx_value(sx_int("n", 1, 40)), m = (int)sx_value(sx_int("m", 1, 40)); std::string a(n, 'k'), b(m, 'k'); if (n > 1) b[m - 1] = 'j'; variable u(a), v(b); sx_check((u == v) == (a == b), "equal exactly when the names are equal"); sx_check(u.name() == a && v.name() == b, "name is returned unchanged"); sx_reach("long"); }
// handles: copies, assignment, swap
SX_HARNESS(reg_handles) { const char *N[3] = {"x", "y", ""}; int i = sx_choice("i", 2), j = sx_choice("j", 2); variable a{std::string(N[i])}, b{std::string(N[j])}; variable c(a), d; sx_check(c == a, "copy"); d = b; sx_check(d == b && d.name() == N[j], "assignment"); c.swap(d); sx_check(c.name() == N[j] && d.name() == N[i], "swap"); a = a; sx_check(a.name() == N[i], "self assignment"); sx_check((a == b) == (i == j), "equal exactly when the names are equal"); std::vector<variable> l{a, b}; sx_check(l[0] == a && l[1] == b, "copies in a container"); sx_reach("handles"); }
