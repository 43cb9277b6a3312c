#include "seq.h"
#include <cstring>
#include <memory>
#include <jogasaki/utils/sanitize_utf8.h>
#include <jogasaki/utils/utf8_utils.h>
#include <jogasaki/utils/hex_to_octet.h>
#include <jogasaki/utils/base64_utils.h>
#include <jogasaki/utils/convert_control_characters.h>
#include <jogasaki/utils/string_manipulation.h>
#include <jogasaki/utils/string_utils.h>
#include <jogasaki/utils/surrogate_id_utils.h>
#include <jogasaki/utils/binary_printer.h>
namespace u = jogasaki::utils;
// the bytes in a block of exactly their size, so that AddressSanitizer sees a read past either end
struct exact {
    std::unique_ptr<char[]> p; std::size_t n;
    explicit exact(std::string const& s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), n); }
    operator std::string_view() const { return {p.get(), n}; }
};
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::stringstream ss(line);
        std::string op, h, h2; ss >> op;
        if (op == "RESET") { ev_init(); continue; }
        ss >> h;
        exact s{unhex(h)};
        std::string_view v = s;
        std::string a = jb(v), r;
        if (op == "san") r = jb(u::sanitize_utf8(v));
        else if (op == "enc") { std::size_t off; ss >> off; a += "," + std::to_string(off); r = std::to_string(u::get_byte(u::detect_next_encoding(v, off))); }
        else if (op == "utf8") r = u::is_valid_utf8(v) ? "true" : "false";
        else if (op == "hex") { std::string o("zz"); bool ok = u::hex_to_octet(v, o); r = ok ? jb(o) : "[999]"; }
        else if (op == "b64e") r = jb(u::encode_base64(v));
        else if (op == "isb64") r = u::is_base64(v) ? "true" : "false";
        else if (op == "b64d") r = jb(u::decode_base64(v));
        else if (op == "ctl") r = jb(u::convert_control_characters(v));
        else if (op == "ltrim") r = jb(u::ltrim(v));
        else if (op == "rtrim") r = jb(u::rtrim(v));
        else if (op == "pre") { ss >> h2; exact p{unhex(h2)}; a += "," + jb(p); r = u::is_prefix(v, p) ? "true" : "false"; }
        else if (op == "be") { // 8 bytes -> number -> bytes
            try { auto n = u::from_big_endian(v); r = jb(u::to_big_endian(n)); } catch (...) { r = "[999]"; }
        }
        else if (op == "sid") r = u::is_surrogate_id(v) ? "true" : "false";
        else if (op == "bin") { int hy; ss >> hy; a += "," + std::to_string(hy); std::stringstream o; o << std::oct << u::binary_printer{v.data(), v.size()}.show_hyphen(hy != 0) << 8; r = jb(o.str()); }
        else if (op == "lit") { std::stringstream o; o << u::binary_printer{v}.cpp_literal(true); r = jb(o.str()); }
        else { std::cerr << "unknown op " << op << "\n"; return 3; }
        ev(op, a, r);
    }
    return 0;
}
