// P09: parameter files.  The expected values come with the case.
#include "hv.h"
#include <memory>
namespace {
using hv::Op;
std::string unhex(const std::string &h) {
    std::string r;
    if (h == "-") return r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
    return r;
}
template <typename T>
std::string num(T v) {
    char b[64];
    if (std::is_floating_point<T>::value) snprintf(b, sizeof b, sizeof(T) == 4 ? "%.9g" : "%.17g", (double)v);
    else if (std::is_unsigned<T>::value) snprintf(b, sizeof b, "%llu", (unsigned long long)v);
    else snprintf(b, sizeof b, "%lld", (long long)v);
    return b;
}
std::string show(const std::string &s) { return "<" + s + ">"; }
std::string show(int v) { return num(v); }
std::string show(long v) { return num(v); }
std::string show(bool v) { return num((int)v); }
std::string show(unsigned v) { return num(v); }
std::string show(unsigned long v) { return num(v); }
std::string show(float v) { return num(v); }
std::string show(double v) { return num(v); }
template <typename T>
std::string show(const Complex<T> &v) { return "(" + num(v.re) + "," + num(v.im) + ")"; }
template <int n, typename T>
std::string show(const Vector<n, T> &v) {
    std::string s;
    for (int i = 0; i < n; i++) s += (i ? "," : "") + show((T)v[i]);
    return s;
}
std::string show(const CoordinateVector &v) {
    std::string s;
    for (int i = 0; i < NDIM; i++) s += (i ? "," : "") + show((int)v[i]);
    return s;
}
template <typename T>
std::string show(const std::vector<T> &v) {
    std::string s;
    for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + show((T)v[i]);
    return s;
}

struct In {
    std::unique_ptr<hila::input> f;
    int nfile = 0;
    // form 0: get_value broadcast, 1: get_value on process 0 only, 2: get()
    template <typename T>
    void get(const std::string &key, int form, bool ok, const std::string &want) {
        T v{};
        bool r = true, here = true;
        if (form == 0 || (form == 2 && !ok)) r = f->get_value(v, key);
        else if (form == 1) { r = f->get_value(v, key, false); here = hila::myrank() == 0; }
        else if (key.empty() && want.size() % 2) { T w = f->get(); v = w; }
        else { T w = f->get(key); v = w; }
        if (!here) return;
        if (r != ok) hv::fail("get_value('%s') returned %d, expected %d", key.c_str(), r, ok);
        else if (ok && show(v) != want) hv::fail("'%s' is read as %s, the file says %s", key.c_str(), show(v).c_str(), want.c_str());
    }
    template <typename T>
    void getq(const std::string &key, int form, bool ok, const std::string &want) {
        T v{};
        bool r = f->get_value(v, key, form != 1);
        if (form == 1 && hila::myrank() != 0) return;
        if (r != ok) hv::fail("get_value('%s') returned %d, expected %d", key.c_str(), r, ok);
        else if (ok && show(v) != want) hv::fail("'%s' is read as %s, the file says %s", key.c_str(), show(v).c_str(), want.c_str());
    }
    void op(const Op &o) {
        const std::string &k = o.name();
        hv::where() = k;
        if (k == "file") { // file HEX how: 0 constructor, 1 open; quiet
            std::string fn = "in" + std::to_string(nfile++) + ".txt";
            if (hila::myrank() == 0) {
                std::ofstream s(fn, std::ios::binary);
                s << unhex(o.s(1));
            }
            MPI_Barrier(MPI_COMM_WORLD);
            if (o.i(2) == 0) f.reset(new hila::input(fn));
            else {
                if (!f) f.reset(new hila::input());
                else f->close();
                f->quiet(o.i(2) == 1);
                if (!f->open(fn)) hv::fail("open() returned false");
            }
        } else if (k == "nofile") {
            hila::input g;
            if (g.open("no_such_file", true, false)) hv::fail("open() of a missing file returned true");
        } else if (k == "again") { // second open without close must be refused
            if (f->open("in0.txt", true, false)) hv::fail("open() of an open input returned true");
        } else if (k == "get") { // get type key form ok want
            std::string t = o.s(1), key = unhex(o.s(2)), want = unhex(o.s(5));
            int form = o.i(3);
            bool ok = o.i(4);
            hv::tag(t);
            hv::tag(ok ? "accepted" : "refused");
            hv::tag("form" + std::to_string(form));
            if (t == "int") get<int>(key, form, ok, want);
            else if (t == "long") get<long>(key, form, ok, want);
            else if (t == "bool") get<bool>(key, form, ok, want);
            else if (t == "unsigned") get<unsigned>(key, form, ok, want);
            else if (t == "ulong") get<unsigned long>(key, form, ok, want);
            else if (t == "float") get<float>(key, form, ok, want);
            else if (t == "double") get<double>(key, form, ok, want);
            else if (t == "string") getq<std::string>(key, form, ok, want);
            else if (t == "gstring") {
                std::string v = f->get(key);
                if (show(v) != want) hv::fail("'%s' is read as %s, the file says %s", key.c_str(), show(v).c_str(), want.c_str());
            } else if (t == "complex") get<Complex<double>>(key, form, ok, want);
            else if (t == "complexf") get<Complex<float>>(key, form, ok, want);
            else if (t == "v3i") get<Vector<3, int>>(key, form, ok, want);
            else if (t == "v4d") get<Vector<4, double>>(key, form, ok, want);
            else if (t == "cv") get<CoordinateVector>(key, form, ok, want);
            else if (t == "li") getq<std::vector<int>>(key, form, ok, want);
            else if (t == "ld") getq<std::vector<double>>(key, form, ok, want);
            else if (t == "lf") getq<std::vector<float>>(key, form, ok, want);
            else if (t == "ls") getq<std::vector<std::string>>(key, form, ok, want);
            else if (t == "lc") getq<std::vector<Complex<double>>>(key, form, ok, want);
            else abort();
        } else if (k == "die") { // die type key: get() must end the program
            std::string key = unhex(o.s(2));
            MPI_Barrier(MPI_COMM_WORLD);
            if (o.s(1) == "int") { int v = f->get(key); hv::fail("get() went on with %d", v); }
            else if (o.s(1) == "string") { std::string v = f->get(key); hv::fail("get() went on with '%s'", v.c_str()); }
            else if (o.s(1) == "v3i") { Vector<3, int> v = f->get(key); hv::fail("get() went on with %d", v[0]); }
            else if (o.s(1) == "li") { std::vector<int> v = f->get(key); hv::fail("get() went on with %zu numbers", v.size()); }
            else if (o.s(1) == "open") { hila::input g("no_such_file"); hv::fail("a missing file was opened"); }
            else { int i = f->get_item(key, {"red", "%f"}); hv::fail("get_item() went on with %d", i); }
        } else if (k == "item") { // item key want form items...
            std::vector<std::string> it;
            for (size_t i = 4; i < o.n(); i++) it.push_back(unhex(o.s(i)));
            hv::tag("item");
            int want = o.i(2), form = o.i(3);
            int r = f->get_item(unhex(o.s(1)), it, form == 0);
            if (form == 0 || hila::myrank() == 0)
                if (r != want) hv::fail("get_item('%s') returned %d, expected %d", unhex(o.s(1)).c_str(), r, want);
        }
    }
};
} // namespace
int main(int argc, char **argv) {
    hila::initialize(argc, argv);
    hv::run([](const hv::Case &c) {
        In h;
        hv::nontriv() = true;
        for (auto &o : c.ops) {
            h.op(o);
            int bad = hv::failed(), any;
            MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
            if (any) break;
        }
    });
    hila::finishrun();
    return 0;
}
