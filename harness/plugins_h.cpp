#include "seq.h"
#include <filesystem>
#include <fstream>
#include <unistd.h>
#include <google/protobuf/descriptor.pb.h>
#include <nlohmann/json.hpp>
#include <jogasaki/udf/descriptor/descriptor_analyzer.h>
#include <jogasaki/udf/descriptor/validation/message_duplicate_validator.h>
#include <jogasaki/udf/descriptor/validation/rpc_duplicate_validator.h>
using json = nlohmann::json;
namespace d = jogasaki::udf::descriptor;
namespace fs = std::filesystem;
static void message(google::protobuf::DescriptorProto& m, json const& j) {
    m.set_name(j["name"].get<std::string>());
    int n = 1;
    for (auto& f : j["fields"]) {
        auto& x = *m.add_field();
        x.set_name("f" + std::to_string(n)); x.set_number(n++);
        x.set_type(f["msg"].get<bool>() ? google::protobuf::FieldDescriptorProto::TYPE_MESSAGE : n % 2 ? google::protobuf::FieldDescriptorProto::TYPE_ENUM : google::protobuf::FieldDescriptorProto::TYPE_INT64);
        if (auto t = f["ty"].get<std::string>(); ! t.empty()) x.set_type_name(t);
    }
    for (auto& c : j["nested"]) message(*m.add_nested_type(), c);
}
static std::string diag(d::message_diagnostics const& ds) {
    json r = json::array();
    for (auto& [k, v] : ds) r.push_back({k, v.defining_protos, v.referring_protos});
    return r.dump();
}
int main(int argc, char** argv) {
    fs::path dir = argv[1];
    dir /= std::to_string(getpid());
    fs::create_directories(dir);
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line == "RESET") { ev_init(); continue; }
        auto j = json::parse(line);
        std::vector<fs::path> paths;
        int n = 0;
        for (auto& f : j) {
            auto p = dir / ("d" + std::to_string(n++) + ".desc.pb");
            paths.push_back(p);
            auto st = f["st"].get<std::string>();
            fs::remove(p);
            if (st == "missing") continue;
            std::ofstream os(p, std::ios::binary);
            if (st == "corrupt") { os << "\xff\xff\xff\xff not a descriptor"; continue; }
            google::protobuf::FileDescriptorSet s;
            for (auto& q : f["protos"]) {
                auto& x = *s.add_file();
                x.set_name(q["name"].get<std::string>());
                if (auto g = q["pkg"].get<std::string>(); ! g.empty()) x.set_package(g);
                for (auto& m : q["msgs"]) message(*x.add_message_type(), m);
                for (auto& v : q["svcs"]) {
                    auto& y = *x.add_service();
                    y.set_name(v["name"].get<std::string>());
                    for (auto& m : v["methods"]) {
                        auto& z = *y.add_method();
                        z.set_name(m["name"].get<std::string>());
                        if (auto t = m["in"]["ty"].get<std::string>(); ! t.empty()) z.set_input_type(t);
                        if (auto t = m["out"]["ty"].get<std::string>(); ! t.empty()) z.set_output_type(t);
                    }
                }
            }
            s.SerializeToOstream(&os);
        }
        auto r = d::analyze_descriptors(paths);
        std::string e, m;
        json es = json::array(), rs = json::array();
        for (auto& x : r.errors()) {
            auto at = std::find(paths.begin(), paths.end(), x.path) - paths.begin();
            using S = plugin::udf::descriptor_read_status;
            es.push_back({at + 1, x.status == S::descriptor_open_failed ? "missing" : x.status == S::descriptor_parse_failed ? "corrupt" : "ok"});
        }
        if (r.has_error() != ! es.empty()) es.push_back({0, "has_error"});
        for (auto& x : r.rpc_methods()) rs.push_back({x.proto_file_name, x.service_name, x.method_name, x.full_rpc_path});
        bool refused = d::validation::validate_rpc_method_duplicates(r.rpc_methods()) != plugin::udf::rpc_duplicate_check_status::ok;
        auto dups = d::validation::filter_message_definition_duplicates(r.message_info());
        ev("analyze", j.dump(), "{\"errors\":" + es.dump() + ",\"rpcs\":" + rs.dump() + ",\"msgs\":" + diag(r.message_info()) + ",\"refused\":" + (refused ? "true" : "false") + ",\"dups\":" + diag(dups) + "}");
    }
    fs::remove_all(dir);
}
