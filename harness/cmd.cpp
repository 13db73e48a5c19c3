// P10: the command line.  A plan (HV_PLAN) declares flags, initializes and asks; answers go to HV_OUT.<rank>.
#include "hila.h"
#include <csignal>
#include <cinttypes>
static std::string unhex(const std::string &h) {
    std::string r;
    if (h == "-") return r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
    return r;
}
static std::string hex(const std::string &s) {
    std::string r;
    char b[4];
    for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
    return r.empty() ? "-" : r;
}
int main(int argc, char **argv) {
    std::ifstream plan(getenv("HV_PLAN"));
    std::string line;
    std::vector<std::vector<std::string>> ops;
    while (std::getline(plan, line)) {
        std::istringstream s(line);
        std::vector<std::string> w;
        std::string t;
        while (s >> t) w.push_back(t);
        if (!w.empty()) ops.push_back(w);
    }
    size_t k = 0;
    for (; k < ops.size() && ops[k][0] == "decl"; k++)
        hila::cmdline.add_flag(unhex(ops[k][1]), unhex(ops[k][3]), unhex(ops[k][4]), atoi(ops[k][2].c_str()));
    hila::initialize(argc, argv);
    int world = getenv("OMPI_COMM_WORLD_RANK") ? atoi(getenv("OMPI_COMM_WORLD_RANK")) : 0;
    FILE *f = fopen((std::string(getenv("HV_OUT")) + "." + std::to_string(world)).c_str(), "w");
    auto out = [&](const std::string &s) { fprintf(f, "%s\n", s.c_str()); fflush(f); };
    out("init");
    std::vector<std::unique_ptr<hila::input>> in;
    CoordinateVector L;
    for (; k < ops.size(); k++) {
        auto &o = ops[k];
        std::string F = o.size() > 1 ? unhex(o[1]) : "";
        char b[100];
        if (o[0] == "set") out(std::to_string(hila::cmdline.flag_set(F.c_str())));
        else if (o[0] == "present") out(std::to_string((int)hila::cmdline.flag_present(F.c_str())));
        else if (o[0] == "vals") {
            std::string s;
            for (auto &v : hila::cmdline.values(F)) s += " " + hex(v);
            out("v" + s);
        } else if (o[0] == "int") { snprintf(b, sizeof b, "%ld", hila::cmdline.get_int(F.c_str(), atoi(o[2].c_str()))); out(b); }
        else if (o[0] == "dbl") { snprintf(b, sizeof b, "%.17g", hila::cmdline.get_double(F.c_str(), atoi(o[2].c_str()))); out(b); }
        else if (o[0] == "str") out(hex(hila::cmdline.get_string(F.c_str(), atoi(o[2].c_str()), atoi(o[3].c_str()) != 0)));
        else if (o[0] == "help") { hila::cmdline.print_help(); out("help"); }
        else if (o[0] == "finish") out(std::to_string((int)hila::time_to_finish()));
        else if (o[0] == "limit") { hila::setup_timelimit(atof(o[1].c_str())); out("limit"); }
        else if (o[0] == "sig") { if (hila::myrank() == 0) raise(SIGUSR1); out("sig"); }
        else if (o[0] == "say") { hila::out0 << "MARK" << F << "KRAM" << std::endl; out("say"); }
        else if (o[0] == "open") { in.push_back(std::make_unique<hila::input>()); out(std::to_string((int)in.back()->open(F, true, false))); }
        else if (o[0] == "close") { in.back()->close(); out("close"); }
        else if (o[0] == "get") {
            auto &i = *in.back();
            std::string t = o[2];
            if (t == "int") { long v = i.get(F); out(std::to_string(v)); }
            else if (t == "dbl") { double v = i.get(F); snprintf(b, sizeof b, "%.17g", v); out(b); }
            else if (t == "str") { std::string v = i.get(F); out(hex(v)); }
            else if (t == "list") {
                std::vector<long> v = i.get(F);
                std::string s;
                for (auto x : v) s += " " + std::to_string(x);
                out("l" + s);
            }
        } else if (o[0] == "setup") {
            foralldir(d) L[d] = atoi(o[1 + d].c_str());
            lattice.setup(L);
            out("setup");
        } else if (o[0] == "where") {
            long s = 1;
            hila::broadcast(s);
            int r = hila::myrank();
            int first = world;
            hila::broadcast(first);
            Field<long> x;
            x = 1;
            long vol = x.sum();
            out(std::to_string(hila::partitions.number()) + " " + std::to_string(hila::partitions.mylattice()) + " " + std::to_string(r) + " " +
                std::to_string(hila::number_of_nodes()) + " " + std::to_string(first) + " " + std::to_string(vol));
        } else if (o[0] == "input_sync") hila::synchronize();
    }
    in.clear();
    out("done");
    fclose(f);
    hila::finishrun();
}
