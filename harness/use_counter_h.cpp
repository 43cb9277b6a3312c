#include <iostream>
#include <sstream>
#include <string>
#include <optional>
#include <array>
#include <jogasaki/utils/use_counter.h>
using jogasaki::utils::use_counter;
int main(int, char**) {
    std::array<std::optional<use_counter>, 6> h{};
    int nh = 0;
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line); std::string op; is >> op;
        if (op == "RESET") { for (auto& x : h) x.reset(); std::cout << "ok" << std::endl; continue; }
        int a = 0, b = 0; is >> a >> b; --a; --b;
        if (op == "new") h[a].emplace();
        else if (op == "drop") h[a].reset();
        else if (op == "reset") h[a]->reset();
        else if (op == "copy") h[a].emplace(*h[b]);
        else if (op == "move") h[a].emplace(std::move(*h[b]));
        else if (op == "assign") { use_counter const& r = *h[b]; *h[a] = r; }
        else if (op == "massign") *h[a] = std::move(*h[b]);
        nh = 3;
        for (int i = 0; i < nh; ++i) std::cout << (h[i] ? h[i]->count() : 0) << " ";
        std::cout << "\n";
    }
    std::cout.flush();
}
