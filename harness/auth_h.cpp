#include "seq.h"
#include <set>
#include <algorithm>
#include <jogasaki/auth/action_set.h>
#include <jogasaki/auth/authorized_users_action_set.h>
#include <jogasaki/auth/fill_action_set.h>
#include <jogasaki/storage/storage_manager.h>
using namespace jogasaki;
using K = auth::action_kind;
namespace {
K kind(std::string const& s) { return s == "control" ? K::control : s == "select" ? K::select : s == "insert" ? K::insert : s == "update" ? K::update : K::delete_; }
char const* name(K k) {
    switch (k) { case K::control: return "control"; case K::select: return "select"; case K::insert: return "insert"; case K::update: return "update"; case K::delete_: return "delete"; default: return "undefined"; }
}
std::vector<std::string> list(std::string const& s) { // comma separated, "-" for none
    std::vector<std::string> r; if (s == "-") return r;
    std::stringstream ss(s); std::string w; while (std::getline(ss, w, ',')) r.push_back(w); return r;
}
auth::action_set mk(std::string const& s) { auth::action_set r{}; for (auto& x : list(s)) r.add_action(kind(x)); return r; }
auth::action_set one(std::string const& s) { return auth::action_set{kind(s)}; }
std::string jl(std::string const& s) { std::string r = "["; for (auto& x : list(s)) r += (r.size() > 1 ? "," : "") + js(x); return r + "]"; }
std::string show(auth::action_set const& s) { std::string r = "["; for (auto&& x : s) r += (r.size() > 1 ? "," : "") + js(name(x)); return r + "]"; }
char const* tf(bool b) { return b ? "true" : "false"; }
}
int main() {
    std::string line;
    std::unique_ptr<storage::impl::storage_control> c;
    while (std::getline(std::cin, line)) {
        std::stringstream ss(line);
        std::string op, u, a; ss >> op;
        if (op == "RESET") { c = std::make_unique<storage::impl::storage_control>("t"); ev_init(); continue; }
        ss >> u >> a;
        auto& us = c->authorized_actions();
        auto& pub = c->public_actions();
        if (op == "grant") { us.add_user_actions(u, mk(a)); ev(op, js(u) + "," + jl(a), "0"); }
        else if (op == "revoke") { us.remove_user_actions(u, mk(a)); ev(op, js(u) + "," + jl(a), "0"); }
        else if (op == "revoke1") { us.remove_user_action(u, kind(a)); ev("revoke", js(u) + "," + jl(a), "0"); }
        else if (op == "drop") { us.remove_user_all_actions(u); ev(op, js(u), "0"); }
        else if (op == "only") {
            pub.clear();
            for (auto it = us.begin(); it != us.end();) { if (it->first != u) it = us.erase(it); else ++it; }
            ev(op, js(u), "0");
        }
        else if (op == "pgrant") { pub.add_actions(mk(u)); ev(op, jl(u), "0"); }
        else if (op == "prevoke") { pub.remove_actions(mk(u)); ev(op, jl(u), "0"); }
        else if (op == "pgrant1") { pub.add_action(kind(u)); ev("pgrant", jl(u), "0"); }
        else if (op == "prevoke1") { pub.remove_action(kind(u)); ev("prevoke", jl(u), "0"); }
        else if (op == "pclear") { pub.clear(); ev(op, "", "0"); }
        else if (op == "reload") {
            proto::metadata::storage::TableDefinition d{}, e{};
            auth::from_action_sets(us, pub, d);
            e.ParseFromString(d.SerializeAsString());
            us.clear(); pub.clear();
            auth::from_authorization_list(e, us);
            auth::from_default_privilege(e, pub);
            ev(op, "", "0");
        }
        else if (op == "allows") ev(op, js(u) + "," + jl(a), tf(static_cast<storage::impl::storage_control const&>(*c).allows_user_actions(u, mk(a))));
        else if (op == "rawallows") { // a question about several rights that is not normalised first
            bool r = true; for (auto& x : list(a)) r = r && c->allows_user_actions(u, one(x));
            ev("allows", js(u) + "," + jl(a), tf(r));
        }
        else if (op == "find") ev(op, js(u), show(us.find_user_actions(u)));
        else if (op == "users") {
            std::set<std::string> n; for (auto& [k, v] : us) n.insert(k);
            std::string r = "["; for (auto& k : n) r += (r.size() > 1 ? "," : "") + js(k);
            if (us.user_count() != n.size()) r += (r.size() > 1 ? "," : "") + js("count");
            ev(op, "", r + "]");
        }
        else if (op == "pub") ev(op, "", show(pub));
        else if (op == "covers") ev(op, js(u) + "," + jl(a), tf(us.find_user_actions(u).allows(mk(a))));
        else if (op == "has") ev(op, js(u) + "," + js(a), tf(us.find_user_actions(u).has_action(kind(a))));
        else if (op == "acovers") ev("covers", js(u) + "," + jl(a), tf(us.find_user_actions(u).action_allowed(kind(a))));
        else if (op == "pallow") ev(op, js(u), tf(pub.action_allowed(kind(u))));
        else if (op == "same") { auto& x = us.find_user_actions(u); auto& y = us.find_user_actions(a); ev(op, js(u) + "," + js(a), (x == y) == ! (x != y) ? tf(x == y) : "\"both\""); }
        else return 3;
    }
}
