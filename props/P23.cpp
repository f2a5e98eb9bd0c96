// P23: datasets exported from an engine are its inputs and outputs.
#include "build.h"
#include <fstream>
#include <unistd.h>
using namespace pbt;

struct Decimals {
    explicit Decimals(int d) { fl::fuzzylite::setDecimals(d); }
    ~Decimals() { fl::fuzzylite::setDecimals(3); }
};
typedef std::vector<double> Row;

static std::vector<std::string> split(const std::string& t, const std::string& sep) {
    std::vector<std::string> r;
    size_t a = 0;
    for (;;) {
        size_t b = t.find(sep, a);
        if (b == std::string::npos)
            break;
        r.push_back(t.substr(a, b - a));
        a = b + sep.size();
    }
    r.push_back(t.substr(a));
    return r;
}
static model::Engine genEngine(Src& s, int maxInputs) {
    model::GenOptions o;
    o.maxInputs = maxInputs;
    o.maxResolution = 20;
    o.hedgesAnywhere = true;
    o.maxRules = 4;
    o.maxTerms = 3;
    return model::genEngine(s, o);
}
struct Settings {
    std::string sep;
    bool header, in, out;
    int decimals;
};
static Settings genSettings(Src& s) {
    static const std::vector<std::string> seps = {" ", " ", ",", "\t", ";", ", ", " | "};
    Settings t;
    t.sep = s.oneOf(seps);
    t.header = !s.chance(1, 4);
    t.in = !s.chance(1, 4);
    t.out = !s.chance(1, 6);
    t.decimals = s.chance(1, 3) ? s.range(1, 9) : 3;
    return t;
}
static void apply(Case& c, fl::FldExporter& x, const Settings& t) {
    c.check(x.exportsHeader() && x.exportsInputValues() && x.exportsOutputValues(), "defaults", "default settings of the exporter");
    x.setExportHeader(t.header);
    x.setExportInputValues(t.in);
    x.setExportOutputValues(t.out);
    c.check(x.getSeparator() == t.sep && x.exportsHeader() == t.header && x.exportsInputValues() == t.in && x.exportsOutputValues() == t.out, "settings", "settings of the exporter");
}
static std::string header(const model::Engine& e, const Settings& t) {
    std::string r;
    auto add = [&](const std::string& n) { r += (r.empty() ? "" : t.sep) + n; };
    if (t.in)
        for (auto& v : e.inputs)
            add(v.name);
    if (t.out)
        for (auto& v : e.outputs)
            add(v.name);
    return r;
}
// rows of inputs and outputs of an engine that is processed by hand; "" or the exception
static std::string expected(fl::Engine& b, const std::vector<Row>& in, std::vector<Row>& rows) {
    for (auto& x : in) {
        if (x.empty()) {
            rows.push_back({});
            continue;
        }
        for (size_t i = 0; i < b.numberOfInputVariables(); ++i)
            b.getInputVariable(i)->setValue(x[i]);
        try {
            b.process();
        } catch (fl::Exception& ex) {
            return ex.getWhat();
        }
        Row r(x.begin(), x.begin() + b.numberOfInputVariables());
        for (double y : build::outputs(b))
            r.push_back(y);
        rows.push_back(r);
    }
    return "";
}
static bool matches(const std::string& text, double x, int decimals) {
    if (std::isnan(x))
        return text == "nan";
    if (std::isinf(x))
        return text == (x > 0 ? "inf" : "-inf");
    char* end;
    double v = strtod(text.c_str(), &end);
    if (text.empty() || *end || std::isnan(v))
        return false;
    if (v == 0 && std::fabs(x) < std::pow(10.0, -decimals))
        return true;  // numbers that are zero to the precision are printed as zero
    if (std::fabs(v - x) > 0.501 * std::pow(10.0, -decimals) + 1e-12 * std::fabs(x))
        return false;
    size_t dot = text.find('.');
    return dot != std::string::npos && text.size() - dot - 1 == (size_t)decimals;
}
// compares the exported text with the rows
static void compare(Case& c, const std::string& text, const model::Engine& e, const Settings& t, const std::vector<Row>& rows) {
    std::vector<std::string> lines = split(text, "\n");
    c.check(!lines.empty() && lines.back().empty(), "lines", "the text does not end with a line break");
    lines.pop_back();
    size_t k = 0;
    if (t.header) {
        c.check(!lines.empty() && lines[0] == header(e, t), "header", "header is <" + (lines.empty() ? "" : lines[0]) + "> instead of <" + header(e, t) + ">");
        k = 1;
    }
    c.checkf(lines.size() == k + rows.size(), "rows", [&] { return strf("%d lines of values instead of %d", (int)(lines.size() - k), (int)rows.size()); });
    size_t ni = e.inputs.size(), no = e.outputs.size();
    for (size_t r = 0; r < rows.size(); ++r) {
        std::vector<double> want;
        if (!rows[r].empty()) {
            if (t.in)
                want.insert(want.end(), rows[r].begin(), rows[r].begin() + ni);
            if (t.out)
                want.insert(want.end(), rows[r].begin() + ni, rows[r].begin() + ni + no);
        }
        const std::string& line = lines[k + r];
        std::vector<std::string> got = line.empty() ? std::vector<std::string>() : split(line, t.sep);
        bool ok = got.size() == want.size();
        for (size_t i = 0; ok && i < want.size(); ++i)
            ok = matches(got[i], want[i], t.decimals);
        c.checkf(ok, "values", [&] { return strf("line %d is <", (int)r) + line + "> instead of " + build::show(want); });
    }
}
template <class F>
static std::string output(Case& c, fl::FldExporter& x, int route, F f, std::string& error) {
    // f(exporter, route, path or "", stream)
    std::string r;
    try {
        r = f(route);
    } catch (fl::Exception& ex) {
        error = ex.getWhat();
    }
    return r;
}
static std::string readAndDelete(const std::string& p) {
    std::ifstream f(p);
    std::stringstream t;
    t << f.rdbuf();
    unlink(p.c_str());
    return t.str();
}
static std::string tempName(Case& c) {
    char n[] = "fldXXXXXX";
    int fd = mkstemp(n);
    if (fd < 0)
        c.discard();
    close(fd);
    return n;
}

static void grid(Case& c) {
    Src& s = c.src;
    model::Engine e = genEngine(s, 4);
    Settings t = genSettings(s);
    Decimals d(t.decimals);
    EngineP a = build::engine(e), b = build::engine(e);
    size_t n = e.inputs.size();
    bool all = s.coin();
    static const std::vector<int> roots = {8, 27, 64, 125, 216, 81, 16, 25, 36, 49, 100, 121, 144, 256};
    int values;
    if (all)
        values = s.coin() ? s.oneOf(roots) : s.range(0, 150);
    else
        values = s.range(0, n == 1 ? 60 : n == 2 ? 12 : n == 3 ? 5 : 3);
    // values of the variables that are not active
    std::vector<bool> active(n, true);
    Row current(n);
    bool subset = s.chance(1, 3);
    for (size_t i = 0; i < n; ++i) {
        current[i] = s.chance(1, 6) ? NAN : s.num(e.inputs[i].min - 0.5, e.inputs[i].max + 0.5);
        if (subset)
            active[i] = s.coin();
    }
    std::vector<fl::InputVariable*> av;
    for (size_t i = 0; i < n; ++i) {
        a->getInputVariable(i)->setValue(current[i]);
        b->getInputVariable(i)->setValue(current[i]);
        av.push_back(active[i] ? a->getInputVariable(i) : nullptr);
    }
    c.note([&] {
        std::string r = strf("%d values for %s, header %d, inputs %d, outputs %d, %d decimals, separator <%s>, current %s, active", values, all ? "all variables" : "each variable", t.header, t.in, t.out, t.decimals, t.sep.c_str(), build::show(current).c_str());
        for (bool x : active)
            r += x ? " 1" : " 0";
        return r + "\n" + model::describe(e);
    });
    // the grid
    int k = values;
    if (all)
        for (k = 1; std::pow((double)(k + 1), (double)n) <= values; ++k) {}
    k = std::max(1, k);
    std::vector<Row> in;
    std::vector<int> idx(n, 0);
    for (;;) {
        Row x(n);
        for (size_t i = 0; i < n; ++i) {
            const auto& v = e.inputs[i];
            x[i] = active[i] ? v.min + idx[i] * (v.max - v.min) / std::max(1, k - 1) : b->getInputVariable(i)->getValue();
        }
        in.push_back(x);
        int p = (int)n - 1;
        for (; p >= 0; --p) {
            if (active[p] && idx[p] < k - 1) {
                ++idx[p];
                break;
            }
            idx[p] = 0;
        }
        if (p < 0)
            break;
    }
    std::vector<Row> rows;
    std::string wantError = expected(*b, in, rows);
    fl::FldExporter x(t.sep);
    apply(c, x, t);
    fl::FldExporter::ScopeOfValues scope = all ? fl::FldExporter::AllVariables : fl::FldExporter::EachVariable;
    std::string text, error, path;
    int route = (int)s.u(subset ? 3 : 6);
    try {
        switch (route) {
            case 0: text = x.toString(a.get(), values, scope, av); break;
            case 1: {
                std::ostringstream w;
                x.write(a.get(), w, values, scope, av);
                text = w.str();
                break;
            }
            case 2:
                path = tempName(c);
                x.toFile(path, a.get(), values, scope, av);
                break;
            case 3: text = x.toString(a.get(), values, scope); break;
            case 4: {
                std::ostringstream w;
                x.write(a.get(), w, values, scope);
                text = w.str();
                break;
            }
            default:
                path = tempName(c);
                x.toFile(path, a.get(), values, scope);
        }
    } catch (fl::Exception& ex) {
        error = ex.getWhat();
    }
    if (!path.empty())
        text = readAndDelete(path);
    c.check(error.empty() == wantError.empty(), "exception", "exporting throws <" + error + "> and processing by hand throws <" + wantError + ">");
    if (!error.empty()) {
        c.label("throws");
        return;
    }
    compare(c, text, e, t, rows);
    bool finite = false;
    for (auto& r : rows)
        for (size_t i = n; i < r.size(); ++i)
            finite = finite || std::isfinite(r[i]);
    c.nontrivial(rows.size() >= 2 && finite && t.out);
    c.label(all ? "all variables" : "each variable");
    c.label(subset ? "some active" : "all active");
    c.label(strf("%d inputs", (int)n));
    // a wrong number of active variables
    if (s.chance(1, 10)) {
        if (s.coin())
            av.push_back(nullptr);
        else
            av.pop_back();
        bool thrown = false;
        try {
            x.toString(a.get(), values, scope, av);
        } catch (fl::Exception&) {
            thrown = true;
        }
        c.check(thrown, "active", "a wrong number of active variables is accepted");
    }
}

static void defaults(Case& c) {  // 1024 values for all variables
    Src& s = c.src;
    model::Engine e = genEngine(s, 3);
    EngineP a = build::engine(e), b = build::engine(e);
    c.note([&] { return model::describe(e); });
    std::string one, two, e1, e2;
    try {
        one = fl::FldExporter().toString((const fl::Engine*)a.get());
    } catch (fl::Exception& ex) {
        e1 = ex.getWhat();
    }
    try {
        two = fl::FldExporter().toString(b.get(), 1024, fl::FldExporter::AllVariables);
    } catch (fl::Exception& ex) {
        e2 = ex.getWhat();
    }
    c.check(e1.empty() == e2.empty() && one == two, "defaults", "the default is not 1024 values for all variables");
    if (!e1.empty())
        return;
    std::vector<std::string> lines = split(one, "\n");
    size_t each = 1, want = 1;  // as many values for each input as are in all at most 1024
    while (std::pow(each + 1, e.inputs.size()) <= 1024)
        ++each;
    for (size_t i = 0; i < e.inputs.size(); ++i)
        want *= each;
    c.checkf(lines.size() == want + 2, "defaults", [&] { return strf("%d lines instead of %d", (int)lines.size(), (int)want + 2); });
    c.nontrivial(true);
}

static void reader(Case& c) {
    Src& s = c.src;
    model::Engine e = genEngine(s, 3);
    Settings t = genSettings(s);
    Decimals d(t.decimals);
    EngineP a = build::engine(e), b = build::engine(e);
    size_t n = e.inputs.size();
    std::string text;
    std::vector<Row> in;
    bool bad = false;
    int lines = s.range(0, 12);
    bool head = s.chance(1, 3);
    auto eol = [&] { return s.chance(1, 10) ? std::string("\r\n") : std::string("\n"); };
    if (head) {
        static const std::vector<std::string> other = {"x", "@relation", "a b c", "1.0 b", "nan x"};
        text += s.chance(1, 4) ? s.oneOf(other) : header(e, {" ", true, true, true, 3});
        text += eol();
    }
    static const std::vector<std::string> space = {" ", " ", "  ", "\t", " \t "};
    for (int l = 0; l < lines; ++l) {
        bool first = l == 0 && !head;
        switch (s.u(12)) {
            case 0:
                text += s.oneOf(std::vector<std::string>{"#", "# comment", "  # 1 2 3", "#1 2"}) + eol();
                break;
            case 1:
                text += s.oneOf(std::vector<std::string>{"", " ", "\t"}) + eol();
                in.push_back({});
                break;
            default: {
                Row x;
                std::string line;
                size_t m = n + (s.chance(1, 4) ? s.range(1, 3) : 0);
                bool fewer = s.chance(1, 60), word = !first && s.chance(1, 60);
                if (fewer)
                    m = s.u(n);
                if (m == 0 && fewer) {
                    text += eol();
                    in.push_back({});
                    break;
                }
                for (size_t i = 0; i < m; ++i) {
                    double v = s.chance(1, 15) ? s.oneOf(std::vector<double>{NAN, INFINITY, -INFINITY}) : i < n ? s.num(e.inputs[i].min - 1, e.inputs[i].max + 1) : s.num(-1, 1);
                    line += (i ? s.oneOf(space) : "") + (std::isfinite(v) && s.coin() ? model::num(v) : std::isnan(v) ? "nan" : std::isinf(v) ? (v > 0 ? "inf" : "-inf") : strf("%.3f", v));
                    x.push_back(v);
                }
                if (word) {
                    line += " word";
                    bad = true;
                }
                if (fewer)
                    bad = true;
                text += (s.chance(1, 8) ? " " : "") + line + (s.chance(1, 8) ? " " : "") + eol();
                if (!bad)
                    in.push_back(x);
            }
        }
        if (bad)
            break;
    }
    c.note([&] { return "--- text\n" + text + "---\n" + model::describe(e); });
    std::vector<Row> rows;
    std::string wantError = expected(*b, in, rows);
    fl::FldExporter x(t.sep);
    apply(c, x, t);
    std::istringstream is(text);
    std::string out, error, path;
    int route = (int)s.u(3);
    try {
        if (route == 0)
            out = x.toString(a.get(), is);
        else if (route == 1) {
            std::ostringstream w;
            x.write(a.get(), w, is);
            out = w.str();
        } else {
            path = tempName(c);
            x.toFile(path, a.get(), is);
        }
    } catch (fl::Exception& ex) {
        error = ex.getWhat();
    }
    if (!path.empty())
        out = readAndDelete(path);
    if (bad && wantError.empty())
        wantError = "ill-formed line";
    c.check(error.empty() == wantError.empty(), "exception", "exporting throws <" + error + "> and expected <" + wantError + ">");
    if (!error.empty()) {
        c.label(bad ? "ill-formed line" : "processing throws");
        c.nontrivial(bad);
        return;
    }
    compare(c, out, e, t, rows);
    bool finite = false;
    size_t full = 0;
    for (auto& r : rows) {
        full += !r.empty();
        for (size_t i = n; i < r.size(); ++i)
            finite = finite || std::isfinite(r[i]);
    }
    c.nontrivial(full >= 2 && finite);
    c.label(head ? "header" : "no header");
}

// lines written one by one, with variables that are not active, missing values, and rows that cannot be processed
static void direct(Case& c) {
    Src& s = c.src;
    model::Engine e = genEngine(s, 3);
    Settings t = genSettings(s);
    Decimals d(t.decimals);
    EngineP a = build::engine(e), b = build::engine(e);
    size_t n = e.inputs.size();
    fl::FldExporter x(t.sep);
    apply(c, x, t);
    Settings plain = t;
    plain.header = false;
    std::ostringstream w;
    std::vector<Row> rows;
    int steps = s.range(1, 6), written = 0, thrown = 0;
    fl::OutputVariable* oa = a->getOutputVariable(0);
    fl::OutputVariable* ob = b->getOutputVariable(0);
    std::unique_ptr<fl::Defuzzifier> da, db;
    std::string log;
    c.note([&] { return log + model::describe(e); });
    for (int k = 0; k < steps; ++k) {
        if (s.chance(1, 5)) {  // the defuzzifier is taken away or put back
            da.reset(da ? (oa->setDefuzzifier(da.release()), (fl::Defuzzifier*)nullptr) : oa->getDefuzzifier() ? oa->getDefuzzifier()->clone() : nullptr);
            if (da)
                oa->setDefuzzifier(nullptr);
            db.reset(db ? (ob->setDefuzzifier(db.release()), (fl::Defuzzifier*)nullptr) : ob->getDefuzzifier() ? ob->getDefuzzifier()->clone() : nullptr);
            if (db)
                ob->setDefuzzifier(nullptr);
            log += "defuzzifier toggled\n";
        }
        if (s.chance(1, 6)) {  // values set meanwhile
            size_t i = s.u(n);
            double v = s.num(e.inputs[i].min, e.inputs[i].max);
            a->getInputVariable(i)->setValue(v);
            b->getInputVariable(i)->setValue(v);
            log += strf("input %d set to %.17g\n", (int)i, v);
        }
        int kind = s.chance(1, 8) ? 1 + (int)s.u(3) : 0;  // 1 no values, 2 too few, 3 wrong number of active variables
        size_t m = kind == 1 ? 0 : kind == 2 ? s.u(n) : n + (s.chance(1, 6) ? s.range(1, 2) : 0);
        Row v;
        for (size_t i = 0; i < m; ++i)
            v.push_back(i >= n ? s.num(-1, 1) : s.chance(1, 15) ? NAN : s.num(e.inputs[i].min - 1, e.inputs[i].max + 1));
        std::vector<fl::InputVariable*> av;
        bool some = s.chance(1, 2);
        Row used = v;
        for (size_t i = 0; i < n; ++i) {
            bool active = !some || s.coin();
            av.push_back(active ? a->getInputVariable(i) : nullptr);
            if (!active && i < used.size())
                used[i] = b->getInputVariable(i)->getValue();
        }
        if (kind == 3) {
            if (s.coin())
                av.push_back(nullptr);
            else
                av.pop_back();
        }
        log += build::show(v) + " active";
        for (auto p : av)
            log += p ? " 1" : " 0";
        log += "\n";
        bool four = some || kind == 3 || s.coin();
        bool refused = !v.empty() && (v.size() < n || av.size() != n);
        std::string want, got, before = w.str();
        std::vector<Row> r;
        if (refused)
            want = "refused";
        else
            want = expected(*b, {used}, r);
        try {
            if (four)
                x.write(a.get(), w, v, av);
            else
                x.write(a.get(), w, v);
        } catch (fl::Exception& ex) {
            got = ex.getWhat();
        }
        c.check(got.empty() == want.empty(), "exception", "writing throws <" + got + "> and processing by hand throws <" + want + ">");
        if (!got.empty()) {
            c.check(w.str() == before, "partial", "a line that could not be written left text");
            ++thrown;
            c.label(refused ? "refused" : "processing throws");
            continue;
        }
        ++written;
        rows.push_back(v.empty() ? Row() : r[0]);
        c.label(v.empty() ? "blank" : some ? "some active" : "all active");
    }
    compare(c, w.str(), e, plain, rows);
    c.nontrivial(written >= 1 && written + thrown >= 2);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P23", {
        {"grid", grid, 8000, 300000, "at least two rows with a finite output"},
        {"reader", reader, 12000, 400000, "at least two rows of values with a finite output, or an ill-formed line"},
        {"direct", direct, 8000, 300000, "at least two lines, one of which is written"},
        {"defaults", defaults, 60, 2000, "processing does not throw"},
    });
}
