#include "prog.h"
#include <jogasaki/udf/generic_record_impl.h>
using namespace plugin::udf;
namespace {
using stream = generic_record_stream_impl;
std::string read_all(generic_record_impl& r, generic_record_stream_status st) {
    using S = generic_record_stream_status;
    std::string v = st == S::ok ? "\"ok\"" : st == S::error ? "\"error\"" : st == S::end_of_stream ? "\"end\"" : st == S::not_ready ? "\"wait\"" : "\"?\"";
    if (st == S::ok || st == S::error) {
        auto c = r.cursor();
        while (c->has_next()) { auto x = c->fetch_int4(); v += "," + (x ? std::to_string(*x) : std::string("-1")); }
    }
    return v;
}
explore::scenario make(prog::program const& p, hist::recorder& rec) {
    explore::scenario sc;
    int n = std::stoi(p.init[0]);
    auto ss = std::make_shared<std::vector<std::unique_ptr<stream>>>();
    for (int i = 0; i < n; ++i) ss->emplace_back(std::make_unique<stream>());
    rec.init(n);
    sc.keep = [ss] {};
    for (std::size_t t = 0; t < p.threads.size(); ++t) {
        sc.threads.emplace_back([ss, t, &rec, ops = p.threads[t]] {
            int id = static_cast<int>(t);
            auto call = [&](std::string const& op, std::string const& a) { hist::quiet q; rec.raw("{\"e\":\"c\",\"t\":" + std::to_string(id) + ",\"op\":\"" + op + "\",\"a\":[" + a + "]}"); rec.open.push_back(id); };
            auto ret = [&](std::string const& v) { hist::quiet q;
                rec.raw("{\"e\":\"r\",\"t\":" + std::to_string(id) + ",\"v\":[" + v + "]}");
                for (auto it = rec.open.begin(); it != rec.open.end(); ++it) if (*it == id) { rec.open.erase(it); break; }
            };
            generic_record_impl out;
            for (auto const& o : ops) {
                std::size_t i = std::stoul(o[1]);
                auto& s = (*ss)[i - 1];
                if (o[0] == "push") { // push s k [e]: record of the numbers k, k+1 (k if k is even), failed with "e"
                    int k = std::stoi(o[2]); bool bad = o.size() > 3;
                    auto r = std::make_unique<generic_record_impl>();
                    r->add_int4(k);
                    if (k % 2) r->add_int4(k + 1);
                    if (bad) r->set_error(error_info(grpc::StatusCode::INTERNAL, "x"));
                    call("push", o[1] + ",[" + (bad ? "\"error\"" : "\"ok\"") + "," + std::to_string(k) + (k % 2 ? "," + std::to_string(k + 1) : "") + "]");
                    s->push(std::move(r)); ret("");
                }
                else if (o[0] == "end") { call("end", o[1]); s->end_of_stream(); ret(""); }
                else if (o[0] == "close") { call("close", o[1]); s->close(); ret(""); }
                else if (o[0] == "try") { call("try", o[1]); auto st = s->try_next(out); ret(read_all(out, st)); }
                else if (o[0] == "next") { call("next", o[1]); auto st = s->next(out, std::nullopt); ret(read_all(out, st)); }
                else if (o[0] == "nextt") { call("nextt", o[1]); auto st = s->next(out, std::chrono::milliseconds(10)); ret(read_all(out, st)); }
                else if (o[0] == "move") { call("move", o[1] + "," + o[2]); *s = std::move(*(*ss)[std::stoul(o[2]) - 1]); ret(""); }
                else if (o[0] == "mctor") { call("move", o[1] + "," + o[2]); auto x = std::make_unique<stream>(std::move(*(*ss)[std::stoul(o[2]) - 1])); { hist::quiet q; s = std::move(x); } ret(""); }
            }
        });
    }
    return sc;
}
}
int main(int, char** argv) { return prog::drive(make, std::stoull(argv[1])); }
