// AssembledConnections: additions, compressions, copies, moves and the text dump.
#include "worlds.hpp"
#include <opm/utility/graph/AssembledConnections.hpp>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <locale>
#include <ostream>
#include <sstream>
#include <streambuf>

using Opm::AssembledConnections;

namespace {

// Sink that the simulator can make fail after any byte.
struct Sink : std::streambuf {
    std::string got;
    int kind = 0;                       // 0, F_SINKSHORT, F_SINKTHROW, F_SINKFULL
    size_t limit = ~size_t(0), window = 0;
    size_t offered = 0;
    bool failed = false;
    std::vector<char> buf;
    bool put(char c)
    {
        size_t pos = offered++;
        bool bad = kind && pos >= limit && (kind != rt::F_SINKFULL || pos < limit + window);
        if (bad) {
            if (!failed) { failed = true; rt::countFault(kind); probe(Probe::SINKFAIL); }
            if (kind == rt::F_SINKTHROW) throw std::runtime_error("sink");
            return false;
        }
        got.push_back(c);
        return true;
    }
    void useBuffer(size_t n) { if (n) { buf.resize(n); setp(buf.data(), buf.data() + n); } }
    bool drain()
    {
        rt::Scope h(rt::HOST);
        char* p = pbase();
        for (; p != pptr(); ++p) if (!put(*p)) { size_t rest = size_t(pptr() - p); std::memmove(pbase(), p, rest); setp(buf.data(), buf.data() + buf.size()); pbump(int(rest)); return false; }
        setp(buf.data(), buf.data() + buf.size());
        return true;
    }
    int_type overflow(int_type c) override
    {
        rt::Scope h(rt::HOST);
        if (!buf.empty() && !drain()) return traits_type::eof();
        if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        if (!buf.empty()) { *pptr() = char(c); pbump(1); return c; }
        return put(char(c)) ? c : traits_type::eof();
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        if (!buf.empty()) return std::streambuf::xsputn(s, n);
        rt::Scope h(rt::HOST);
        for (std::streamsize i = 0; i < n; ++i) if (!put(s[i])) return i;
        return n;
    }
    bool pending() const { return pptr() != pbase(); }
    int sync() override { return buf.empty() || drain() ? 0 : -1; }
};

struct Pend { int i, j; double w; bool weighted; };
struct Graph {                                 // model of a compressed graph
    bool valid = false, weighted = false;
    std::vector<std::map<int, double>> row;
};
struct Obj {
    Box<AssembledConnections> ac;
    std::vector<Pend> pend;
    Graph g;
};

// Sums of these are exact in any order: at most 40 bits each, all multiples of one power of two.
double weightOf(long s, int scale)
{
    Rng r(mix(uint64_t(s), 23));
    double w = std::round((r.unit() - 0.3) * 1048576.0) / 1024.0;
    if (r.chance(80)) w = 0.0;
    if (r.chance(80)) w *= 1048576.0;
    return std::ldexp(w, scale);
}
double oddWeightOf(long s)                     // any double, for the dump
{
    Rng r(mix(uint64_t(s), 29));
    switch (r.below(8)) {
    case 0: return r.unit();
    case 1: return std::ldexp(r.unit() - 0.5, r.range(-1000, 1000));
    case 2: return std::numeric_limits<double>::max();
    case 3: return std::numeric_limits<double>::denorm_min() * double(1 + r.below(9));
    case 4: return -0.0;
    case 5: return 1.0 / 3.0;
    case 6: return 0.1 * double(r.below(100));
    default: { uint64_t b = r.next(); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 1.5; }
    }
}

struct ConnWorld : World {
    Plan plan;
    Obj obj[3];
    int n;
    bool odd;
    int scale;                     // of the weights

    explicit ConnWorld(const Plan& p) : plan(p), n(int(p.c("rows", 6))), odd(p.c("odd", 0)), scale(int(p.c("wsc", 0))) {}

    void ensure(int k)
    {
        if (obj[k].ac) return;
        Spec s; s.op = "AssembledConnections()";
        Outcome r = obj[k].ac.build(s, [&](void* p) { new (p) AssembledConnections(); });
        if (!r.ok()) rt::fail("unexpected-error", "default construction failed");
        obj[k].pend.clear();
        obj[k].g = Graph();
    }
    uint64_t read(Obj& o, std::vector<size_t>& ia, std::vector<int>& ja, std::vector<double>& sa)
    {
        size_t rows = 0;
        sure("numRows", [&] { rows = o.ac->numRows(); });
        auto take = [&](auto& dst, const auto& src) {
            rt::noteRead(src.data(), src.size() * sizeof(src[0]));
            rt::Scope h(rt::HOST);
            dst.assign(src.data(), src.data() + src.size());
        };
        sure("startPointers", [&] { take(ia, o.ac->startPointers()); });
        sure("neighbourhood", [&] { take(ja, o.ac->neighbourhood()); });
        sure("connectionWeight", [&] { take(sa, o.ac->connectionWeight()); });
        return Hash().u(rows).v(ia).v(ja).v(sa).h;
    }
    // The object has to show exactly the model's compressed graph.
    uint64_t check(Obj& o, const char* when)
    {
        if (!o.ac || !o.g.valid) return 0;
        std::vector<size_t> ia; std::vector<int> ja; std::vector<double> sa;
        uint64_t h = read(o, ia, ja, sa);
        if (!checks) return h;
        char b[300];
        auto bad = [&](const std::string& m) { rt::fail("wrong-graph", m + " (" + when + ")"); };
        size_t rows = o.g.row.size();
        if (ia.size() != rows + 1) { snprintf(b, sizeof b, "the graph has %zd rows, %zu were requested", ssize_t(ia.size()) - 1, rows); bad(b); }
        if (ia[0] != 0 || ia.back() != ja.size()) bad("start pointers do not span the neighbours");
        if (o.g.weighted && sa.size() != ja.size()) bad("not exactly one weight per connection");
        if (!o.g.weighted && !sa.empty()) bad("an unweighted graph carries weights of an earlier one");
        for (size_t r = 0; r < rows; ++r) {
            if (ia[r + 1] < ia[r] || ia[r + 1] > ja.size()) bad("start pointers decrease");
            if (o.g.row[r].empty()) probe(Probe::EMPTYROW);
            if (ia[r + 1] - ia[r] != o.g.row[r].size()) { snprintf(b, sizeof b, "row %zu has %zu neighbours, expected %zu", r, ia[r + 1] - ia[r], o.g.row[r].size()); bad(b); }
            size_t k = ia[r];
            for (auto& e : o.g.row[r]) {
                if (ja[k] != e.first) { snprintf(b, sizeof b, "row %zu: neighbour %d, expected %d", r, ja[k], e.first); bad(b); }
                if (o.g.weighted && sa[k] != e.second && !(odd && std::fabs(sa[k] - e.second) <= 1e-12 * std::fabs(e.second))) { snprintf(b, sizeof b, "row %zu neighbour %d: weight %.17g, expected %.17g", r, e.first, sa[k], e.second); bad(b); }
                ++k;
            }
            if (o.g.weighted) {
                std::vector<std::pair<int, double>> nb;
                sure("cellNeighbourhood", [&] {
                    auto range = o.ac->cellNeighbourhood(int(r));
                    for (auto c : range) { rt::Scope h2(rt::HOST); nb.push_back({c.neighbour, c.weight}); if (nb.size() > ja.size()) break; }
                });
                if (nb.size() != o.g.row[r].size()) bad("cellNeighbourhood() visits the wrong number of connections");
                for (size_t q = 0; q < nb.size(); ++q) if (nb[q].first != ja[ia[r] + q] || memcmp(&nb[q].second, &sa[ia[r] + q], 8)) bad("cellNeighbourhood() disagrees with the tables");
            }
        }
        return h;
    }
    void checkAll(const char* when) { for (auto& o : obj) check(o, when); }

    void op(const Op& o) override
    {
        int k = int(o.arg(0)) % 3;
        Obj& x = obj[k];
        ensure(k);
        if (o.name == "add") {
            int i = int(o.arg(1)), j = int(o.arg(2));
            bool wt = o.arg(3) != 0;
            double w = odd ? oddWeightOf(o.arg(3)) : weightOf(o.arg(3), scale);
            Outcome r = act(o, [&] { if (wt) x.ac->addConnection(i, j, w); else x.ac->addConnection(i, j); });
            expect(MUST_OK, r, "addConnection");
            if (r.ok()) x.pend.push_back({i, j, w, wt});
            rec(r.kind);
        }
        else if (o.name == "adds") {                       // a batch of random additions; the fault hits one of them
            Rng q(mix(uint64_t(o.arg(1)), 37));
            int m = int(o.arg(2)), style = int(o.arg(3));
            uint64_t kinds = 0;
            Fault f = spec(o).f;
            uint64_t seen = 0;
            for (int a = 0; a < m; ++a) {
                int i = (style & 8) && q.chance(950) ? n / 2 : int(q.below(uint64_t(n))), j = int(q.below(uint64_t(n + (style & 2 ? 3 : 0))));
                if (q.chance(250) && !x.pend.empty()) { auto& e = x.pend[q.below(x.pend.size())]; i = e.i; j = e.j; probe(Probe::DUPCONN); }
                bool wt = !(style & 1) || (style & 4 && q.chance(500));
                double w = odd ? oddWeightOf(long(q.below(1u << 30))) : weightOf(long(q.below(1u << 30)), scale);
                if (m < 2000 && q.chance(120) && !odd && wt) for (auto& e : x.pend) if (e.i == i && e.j == j && e.weighted) { w = -e.w; break; }      // cancels, but stays a connection
                Spec s = spec(o);
                s.f = Fault();
                if (f.kind && f.n > seen) { s.f = f; s.f.n = f.n - seen; }
                else if (f.kind == rt::F_FROM || (f.kind == rt::F_BURST && f.n + f.m > seen)) { s.f = f; s.f.n = 1; if (f.kind == rt::F_BURST) s.f.m = f.n + f.m - seen; }
                Outcome r = rt::call(s, [&] { if (wt) x.ac->addConnection(i, j, w); else x.ac->addConnection(i, j); });
                noteOutcome(r);
                seen += r.allocs;
                expect(MUST_OK, r, "addConnection");
                if (r.ok()) x.pend.push_back({i, j, w, wt});
                kinds = kinds * 7 + uint64_t(r.kind);
            }
            rec(kinds);
        }
        else if (o.name == "cmp") {
            int maxRow = -1;
            bool w = false, u = false;
            for (auto& e : x.pend) { maxRow = std::max(maxRow, e.i); (e.weighted ? w : u) = true; }
            long rows = o.arg(1);                          // >= 0: rows beyond the largest row index; -1: too small; -2: plan size
            size_t want = rows == -2 ? size_t(std::max(n, maxRow + 1)) : rows >= 0 ? size_t(maxRow + 1 + rows) : size_t(std::max(0, maxRow + int(rows) + 1));
            Expect e = MUST_OK;
            if (w && u) { e = MUST_FAIL; probe(Probe::MIXED); }
            if (maxRow >= 0 && want <= size_t(maxRow)) { e = MUST_FAIL; probe(Probe::TOOSMALL); }
            uint64_t budget = 200000 + 1500ull * (x.pend.size() + want + 20 + uint64_t(n));
            Outcome r = act(o, [&] { x.ac->compress(want); }, budget);
            uint64_t ratio = r.steps * 1000 / budget;
            if (rt::st && ratio > rt::st->maxWorkRatio) rt::st->maxWorkRatio = ratio;
            expect(e, r, "compress");
            if (r.ok()) {
                x.g = Graph();
                x.g.valid = true;
                x.g.weighted = w;
                x.g.row.resize(want);
                for (auto& p : x.pend) if (size_t(p.i) < want) x.g.row[p.i][p.j] += p.weighted ? p.w : 0.0;
                x.pend.clear();
            }
            else if (r.fired) probe(Probe::FAILEDASSIGN);
            rec(uint64_t(r.kind) ^ check(x, r.ok() ? "after compress" : "after a failed compress"));
        }
        else if (o.name == "acopy" || o.name == "amove") {
            int t = int(o.arg(1)) % 3;
            if (t == k) { rec(0); return; }
            Obj nb;
            bool mv = o.name == "amove";
            Outcome r = nb.ac.build(spec(o), [&](void* p) { if (mv) new (p) AssembledConnections(std::move(*x.ac)); else new (p) AssembledConnections(*x.ac); });
            noteOutcome(r);
            expect(MUST_OK, r, mv ? "move" : "copy");
            if (r.ok()) {
                obj[t].ac = std::move(nb.ac);
                obj[t].pend = x.pend; obj[t].g = x.g;
                if (mv) { x.ac.destroy(); x.pend.clear(); x.g = Graph(); probe(Probe::MOVED); rt::countFault(rt::F_MOVE); } else probe(Probe::COPIED);
            }
            rec(uint64_t(r.kind) ^ check(obj[t], "after copy or move") ^ check(x, "original after copy or move"));
        }
        else if (o.name == "aassign" || o.name == "amassign") {
            int t = int(o.arg(1)) % 3;
            if (t == k && o.name == "amassign") { rec(0); return; }
            ensure(t);
            bool mv = o.name == "amassign";
            Outcome r = act(o, [&] { if (mv) *obj[t].ac = std::move(*x.ac); else *obj[t].ac = *x.ac; });
            expect(MUST_OK, r, mv ? "move assignment" : "copy assignment");
            if (r.ok()) {
                obj[t].pend = x.pend; obj[t].g = x.g;
                if (mv) { x.ac.destroy(); x.pend.clear(); x.g = Graph(); probe(Probe::MOVED); rt::countFault(rt::F_MOVE); } else probe(Probe::COPIED);
            }
            else { obj[t].ac.destroy(); obj[t].pend.clear(); obj[t].g = Graph(); }      // target of a failed assignment: only destroyed
            rec(uint64_t(r.kind) ^ check(obj[t], "after assignment") ^ check(x, "source of an assignment"));
        }
        else if (o.name == "anew") { x.ac.destroy(); ensure(k); rec(1); }
        else if (o.name == "achk") { uint64_t h = 0; for (auto& y : obj) h = h * 31 + check(y, "later operations"); rec(h); }
        else if (o.name == "dump") dump(o, x);
        else rt::fail("harness", "unknown operation " + o.name);
        if (checks && curOp % 4 == 3) checkAll("later operations");
    }

    std::string fullText(Obj& x)
    {
        // The text is defined by the accessors; notation as documented in the property: one line per connection.
        std::vector<size_t> ia; std::vector<int> ja; std::vector<double> sa;
        read(x, ia, ja, sa);
        std::string t;
        char b[80];
        for (size_t r = 0; r + 1 < ia.size(); ++r) for (size_t k = ia[r]; k < ia[r + 1]; ++k) { snprintf(b, sizeof b, "%zu %d %.16e\n", r, ja[k], sa[k]); t += b; }
        return t;
    }
    // Line by line: row, neighbour and a number that reads back to exactly the weight.
    void checkText(Obj& x, const std::string& text)
    {
        std::vector<size_t> ia; std::vector<int> ja; std::vector<double> sa;
        read(x, ia, ja, sa);
        const char* p = text.c_str();
        char b[200];
        for (size_t r = 0; r + 1 < ia.size(); ++r) for (size_t k = ia[r]; k < ia[r + 1]; ++k) {
            char *e1, *e2, *e3;
            long row = strtol(p, &e1, 10);
            long nb = *e1 == ' ' ? strtol(e1, &e2, 10) : -1;
            double w = *e1 == ' ' && *e2 == ' ' ? strtod(e2 + 1, &e3) : 0.0;
            bool form = e1 != p && *e1 == ' ' && *e2 == ' ' && e3 != e2 + 1 && *e3 == '\n';
            if (!form) { snprintf(b, sizeof b, "malformed line for connection %zu of row %zu: '%.60s'", k, r, p); rt::fail("wrong-text", b); }
            if (row != long(r) || nb != ja[k]) { snprintf(b, sizeof b, "line '%ld %ld' written where '%zu %d' belongs", row, nb, r, ja[k]); rt::fail("wrong-text", b); }
            if (memcmp(&w, &sa[k], 8)) { snprintf(b, sizeof b, "weight %.17g of connection (%zu,%d) reads back as %.17g", sa[k], r, ja[k], w); rt::fail("lossy-text", b); }
            p = e3 + 1;
        }
        if (*p) rt::fail("wrong-text", "text after the last connection");
    }

    // args: slot, seed of the stream settings, sink fault kind, per mille position, exception mask, buffer size
    void dump(const Op& o, Obj& x)
    {
        bool any = false;
        for (auto& r : x.g.row) if (!r.empty()) any = true;
        if (!x.g.valid || (!x.g.weighted && any)) { rec(0); return; }
        std::string full = fullText(x);
        Rng q(mix(uint64_t(o.arg(1)), 43));
        Sink sink;
        sink.useBuffer(size_t(o.arg(5)));
        int sk = int(o.arg(2));
        static const int kinds[] = {0, rt::F_SINKSHORT, rt::F_SINKTHROW, rt::F_SINKFULL};
        if (!probing) sink.kind = kinds[sk % 4];
        sink.limit = size_t(full.size() * uint64_t(o.arg(3)) / 1000);
        sink.window = 1 + q.below(40);
        std::ostream os(&sink);
        // Any precision and floating-point notation.
        static const std::ios_base::fmtflags fl[] = {std::ios_base::fmtflags(0), std::ios_base::fixed, std::ios_base::scientific, std::ios_base::fixed | std::ios_base::scientific};
        os.setf(fl[q.below(4)], std::ios_base::floatfield);
        os.precision(long(q.below(22)));
        if (q.chance(300)) os.setf(std::ios_base::uppercase);
        if (q.chance(200)) os.setf(std::ios_base::showpoint);
        if (q.chance(200) && sk % 4 == 0 && !o.f.kind) os.setf(std::ios_base::unitbuf);   // (with a failing sink the standard library itself terminates)
        bool exotic = q.chance(150);                          // settings outside the guaranteed text: only their restoration is checked
        if (exotic) { if (q.chance(500)) os.setf(std::ios_base::hex, std::ios_base::basefield); os.setf(std::ios_base::showpos); os.setf(std::ios_base::left, std::ios_base::adjustfield); }
        if (exotic && q.chance(500)) os.imbue(commas());
        const std::locale loc = os.getloc();
        os.fill(q.chance(300) ? '*' : ' ');
        static const std::ios_base::iostate masks[] = {std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit | std::ios_base::badbit, std::ios_base::failbit};
        // A stream that has failed before takes nothing and does not forget it.
        bool before = q.chance(80);
        static const std::ios_base::iostate gone[] = {std::ios_base::failbit, std::ios_base::badbit, std::ios_base::eofbit};
        if (before) os.setstate(gone[q.below(3)]);
        else os.exceptions(masks[o.arg(4) % 4]);
        auto flags = os.flags(); auto prec = os.precision(); auto fill = os.fill(); auto mask = os.exceptions();
        const AssembledConnections& ac = *x.ac;
        Outcome r = act(o, [&] { os << ac; }, 1000000 + 2000ull * (full.size() + x.g.row.size()));
        bool threw = !r.ok();
        if (checks) {
            auto bad = [&](const char* m) { rt::fail("stream-settings", std::string(m) + (threw ? " after an exception" : "") + (sink.failed ? " after a sink failure" : "")); };
            if (os.flags() != flags) bad("the stream's format flags are not what they were before");
            if (os.precision() != prec) bad("the stream's precision is not what it was before");
            if (os.fill() != fill) bad("the stream's fill character is not what it was before");
            if (os.getloc() != loc) bad("the stream's locale is not what it was before");
            if (os.rdbuf() != &sink) bad("the stream's buffer is not what it was before");
            if (os.exceptions() != mask) bad("the stream's exception mask is not what it was before");
            if (before && !threw && (os.good() || !sink.got.empty() || sink.pending())) rt::fail("stream-state", "a stream that had failed before was written to or made good again");
            if (threw && !sink.failed && !r.fired) rt::fail("valid-call-rejected", "writing to a healthy sink threw");
            if (threw && sink.kind != rt::F_SINKTHROW && mask == std::ios_base::goodbit && !r.fired) rt::fail("foreign-exception", "a stream without exceptions threw");
        }
        if (before) { rec(Hash().s(sink.got).u(uint64_t(r.kind)).u(os.rdstate()).h); return; }
        bool stateShows = threw || !os.good();
        if (!sink.buf.empty()) {
            os.exceptions(std::ios_base::goodbit);
            os.flush();
            if (!os.good()) stateShows = true;
        }
        if (checks && !exotic) {
            if (sink.got.size() == full.size() && !sink.failed && !r.fired) {}
            if (!sink.failed && !r.fired) {
                if (!os.good()) rt::fail("stream-state", "the stream reports a failure although the sink accepted everything");
                checkText(x, sink.got);
            }
            else {
                // What was accepted has to be a prefix of the complete text, and the loss has to show.
                std::string ok = reference(x, os.getloc(), flags);
                if (sink.got.size() > ok.size() || ok.compare(0, sink.got.size(), sink.got) != 0) rt::fail("not-a-prefix", "the bytes accepted by a failing sink are not a prefix of the text");
                if (sink.got.size() < ok.size() && !stateShows) rt::fail("silent-loss", "bytes were lost but the stream reports success");
            }
        }
        rec(Hash().s(sink.got).u(uint64_t(r.kind)).u(os.rdstate()).h);
    }
    struct Commas : std::numpunct<char> {
        char do_decimal_point() const override { return ','; }
        char do_thousands_sep() const override { return '.'; }
        std::string do_grouping() const override { return "\3"; }
    };
    static const std::locale& commas() { static const std::locale l(std::locale::classic(), new Commas); return l; }
    // Text written to a healthy sink with the same settings.
    std::string reference(Obj& x, const std::locale&, std::ios_base::fmtflags fl)
    {
        std::ostringstream s;
        s.flags(fl);
        const AssembledConnections& ac = *x.ac;
        sure("operator<<", [&] { s << ac; });
        std::string t = s.str();
        checkText(x, t);
        return t;
    }

    void finish() override
    {
        if (checks) checkAll("at the end");
        // Pending connections of every object have to come out exactly.
        for (auto& o : obj) {
            if (!o.ac) continue;
            if (checks && !o.pend.empty()) {
                int maxRow = -1; bool w = false, u = false;
                for (auto& e : o.pend) { maxRow = std::max(maxRow, e.i); (e.weighted ? w : u) = true; }
                Op c; c.name = "cmp";
                Spec s; s.op = "final compress";
                Outcome r = rt::call(s, [&] { o.ac->compress(size_t(maxRow + 2)); });
                expect(w && u ? MUST_FAIL : MUST_OK, r, "compress");
                if (r.ok()) {
                    o.g = Graph(); o.g.valid = true; o.g.weighted = w; o.g.row.resize(size_t(maxRow + 2));
                    for (auto& p : o.pend) o.g.row[p.i][p.j] += p.weighted ? p.w : 0.0;
                    check(o, "final compress of the pending connections");
                }
            }
            o.ac.destroy();
        }
    }
};

} // namespace

std::unique_ptr<World> makeConnWorld(const Plan& p, const char*) { return std::unique_ptr<World>(new ConnWorld(p)); }
