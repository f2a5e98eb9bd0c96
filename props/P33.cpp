// P33: benchmarks evaluate the given data and report true errors.
#include "build.h"
#include <algorithm>
using namespace pbt;

typedef std::vector<double> Row;
typedef std::vector<Row> Table;
typedef fl::Benchmark B;

static bool equal(const Table& a, const Table& b) {
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].size() != b[i].size())
            return false;
        for (size_t k = 0; k < a[i].size(); ++k)
            if (!same(a[i][k], b[i][k]))
                return false;
    }
    return true;
}
static std::string show(const Table& t) {
    std::string r;
    for (auto& x : t)
        r += "[" + build::show(x) + "] ";
    return r;
}
static model::GenOptions options() {
    model::GenOptions o;
    o.maxResolution = 15;
    o.maxRules = 3;
    o.maxTerms = 3;
    o.hedgesAnywhere = true;
    return o;
}
// an engine with variables only
static EngineP frame(Src& s, int maxInputs, int maxOutputs, bool infiniteToo) {
    EngineP e(new fl::Engine("frame"));
    for (int i = s.range(0, maxInputs); i > 0; --i) {
        double lo = s.num(-10, 10);
        e->addInputVariable(new fl::InputVariable("in" + std::to_string(i), lo, lo + s.num(0, 10)));
    }
    for (int i = s.range(infiniteToo ? 0 : 1, maxOutputs); i > 0; --i) {
        double lo = s.num(-10, 10);
        e->addOutputVariable(new fl::OutputVariable("out" + std::to_string(i), lo, lo + s.num(0.5, 10)));
    }
    return e;
}

// The statistics by definition
struct Statistics {
    int all = 0, finite = 0, nonFinite = 0;
    double squares = 0;
    double mse() const { return finite ? squares / finite : 0; }
};
static Statistics compute(const Table& e, const Table& o, size_t column, double tolerance) {
    Statistics r;
    for (size_t i = 0; i < e.size(); ++i) {
        double a = e[i][column], b = o[i][column];
        if (a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) < tolerance)
            continue;
        ++r.all;
        if (std::isfinite(a - b)) {
            ++r.finite;
            r.squares += (a - b) * (a - b);
        } else
            ++r.nonFinite;
    }
    return r;
}
static Statistics sum(const std::vector<Statistics>& v) {
    Statistics r;
    for (auto& x : v) {
        r.all += x.all;
        r.finite += x.finite;
        r.nonFinite += x.nonFinite;
        r.squares += x.squares;
    }
    return r;
}
static std::string value(const std::vector<B::Result>& results, const std::string& key) {
    for (auto& r : results)
        if (r.first == key)
            return r.second;
    return "(none)";
}

static void checkStatistics(Case& c, const B& b, const Table& e, const Table& o, double tolerance) {
    const fl::Engine* engine = b.getEngine();
    size_t inputs = engine->numberOfInputVariables(), outputs = engine->numberOfOutputVariables();
    bool can = !e.empty() && e.size() == o.size();
    for (size_t i = 0; can && i < e.size(); ++i)
        can = e[i].size() == inputs + outputs && o[i].size() == inputs + outputs;
    c.check(b.canComputeErrors() == can, "can", can ? "errors can be computed but it says otherwise" : "errors cannot be computed but it says otherwise");
    auto check = [&](const fl::OutputVariable* y, const Statistics& want) {
        std::string what = y ? "output " + y->getName() : "all outputs";
        double mse = y ? b.meanSquaredError(y) : b.meanSquaredError();
        c.check(close(mse, want.mse(), 1e-9, 0), "mse", what + ": mean squared error is " + str(mse) + " and not " + str(want.mse()));
        int all = y ? b.allErrors(y) : b.allErrors(), finite = y ? b.accuracyErrors(y) : b.accuracyErrors(),
            nonFinite = y ? b.nonFiniteErrors(y) : b.nonFiniteErrors();
        c.check(all == want.all && finite == want.finite && nonFinite == want.nonFinite, "errors",
                what + strf(": errors %d = %d + %d and not %d = %d + %d", all, finite, nonFinite, want.all, want.finite, want.nonFinite));
        c.check(b.numberOfErrors(B::All, y) == all && b.numberOfErrors(B::Accuracy, y) == finite && b.numberOfErrors(B::NonFinite, y) == nonFinite,
                "numberOfErrors", what);
    };
    if (!can) {
        c.check(std::isnan(b.meanSquaredError()) && b.allErrors() == -1 && b.accuracyErrors() == -1 && b.nonFiniteErrors() == -1, "cannot",
                "errors are reported although they cannot be computed");
        std::vector<B::Result> r = b.results();
        c.check(value(r, "errors") == "(none)" && value(r, "rmse") == "(none)", "cannot-results", "errors are in the results although they cannot be computed");
        return;
    }
    std::vector<Statistics> each;
    double range = 0, weights = 0, nrmse = 0;
    std::string names;
    auto results = [&](const fl::OutputVariable* y, const Statistics& want, double meanRange, double normalised, const std::string& name) {
        std::vector<B::Result> r = y ? b.results(y) : b.results();
        auto number = [&](const char* key, double expected) {
            std::string t = value(r, key);
            double got = strtod(t.c_str(), nullptr);
            c.checkf(close(got, expected, 1e-5, 1e-3), std::string("results-") + key, [&] { return std::string(key) + " in results is " + t + " and not " + str(expected); });
        };
        number("range", meanRange);
        number("errors", want.all);
        number("accErrors", want.finite);
        number("nfErrors", want.nonFinite);
        std::string rmse = value(r, "rmse"), nrm = value(r, "nrmse");
        c.check(close(strtod(rmse.c_str(), nullptr), std::sqrt(want.mse()), 1e-5, 1e-6), "results-rmse", "rmse in results is " + rmse + " and not " + str(std::sqrt(want.mse())));
        c.check(close(strtod(nrm.c_str(), nullptr), normalised, 1e-5, 1e-6), "results-nrmse", "nrmse in results is " + nrm + " and not " + str(normalised));
        c.check(value(r, "outputVariable") == name, "results-name", "outputs in results are " + value(r, "outputVariable") + " and not " + name);
        c.check(close(strtod(value(r, "tolerance").c_str(), nullptr), tolerance, 1e-4, 0), "results-tolerance", "tolerance in results is " + value(r, "tolerance"));
    };
    for (size_t k = 0; k < outputs; ++k) {
        const fl::OutputVariable* y = engine->getOutputVariable(k);
        each.push_back(compute(e, o, inputs + k, tolerance));
        check(y, each.back());
        double rmse = std::sqrt(each.back().mse());
        if (y->range() > 0)
            results(y, each.back(), y->range(), rmse, y->getName());  // weighted by the only one
        range += y->range();
        nrmse += rmse / y->range();
        weights += 1 / y->range();
        names += (k ? "," : "") + y->getName();
    }
    Statistics all = sum(each);
    check(nullptr, all);
    if (outputs)
        results(nullptr, all, range / outputs, nrmse / weights, names);
}

static double cell(Src& s) { return s.chance(1, 4) ? s.oneOf<double>({fl::nan, fl::inf, -fl::inf, 0}) : s.num(-10, 10); }

static void statistics(Case& c) {
    Src& s = c.src;
    EngineP engine = frame(s, 2, 3, true);
    size_t columns = engine->numberOfInputVariables() + engine->numberOfOutputVariables();
    double tolerance = s.oneOf<double>({1e-6, 1e-3, 0.1, 2});
    Table e, o;
    for (int i = s.range(0, 6); i > 0; --i) {
        Row a, b;
        for (size_t k = 0; k < columns; ++k) {
            a.push_back(cell(s));
            int how = s.u(4);
            b.push_back(how == 0 ? a.back() : how == 1 ? a.back() + tolerance * s.oneOf<double>({0.5, -0.5, 1, -1, 2, -2}) : cell(s));
        }
        e.push_back(a);
        o.push_back(b);
    }
    if (s.chance(1, 8) && !e.empty()) {  // not rectangular
        Table& t = s.coin() ? e : o;
        Row& r = t[s.u((uint32_t)t.size())];
        switch (s.u(3)) {
            case 0: t.pop_back(); break;
            case 1: r.push_back(1); break;
            default:
                if (!r.empty())
                    r.pop_back();
        }
    }
    c.note([&] { return strf("tolerance %g, %zu inputs, expected ", tolerance, engine->numberOfInputVariables()) + show(e) + "obtained " + show(o); });
    for (size_t i = 0; i < std::min(e.size(), o.size()); ++i)
        c.nontrivial(!equal({e[i]}, {o[i]}));
    B b("statistics", engine.get(), tolerance);
    if (s.coin()) {
        b = B("other");
        b.setName("statistics");
        b.setEngine(engine.get());
        b.setTolerance(tolerance);
    }
    b.setExpected(e);
    b.setObtained(o);
    c.check(equal(b.getExpected(), e) && equal(b.getObtained(), o) && b.getTolerance() == tolerance && b.getEngine() == engine.get() && b.getName() == "statistics",
            "attributes", "attributes of the benchmark");
    checkStatistics(c, b, e, o, tolerance);
    B copy(b);
    checkStatistics(c, copy, e, o, tolerance);
    copy.reset();
    c.check(copy.getObtained().empty() && copy.getTimes().empty() && equal(copy.getExpected(), e) && equal(b.getObtained(), o), "reset", "reset of a copy");
}

static void prepare(Case& c) {
    Src& s = c.src;
    EngineP engine = frame(s, 4, 1, true);
    if (!engine->numberOfInputVariables())
        c.discard();
    size_t n = engine->numberOfInputVariables();
    B b("prepare", engine.get());
    bool all = s.coin();
    int values;
    if (all) {
        int side = s.range(1, n < 3 ? 12 : 5);
        values = (int)std::lround(std::pow(side, (double)n));
        if (s.coin())
            values += s.range(-2, 2);
        values = std::max(1, values);
    } else
        values = s.range(1, n < 3 ? 12 : 5);
    int side = values;
    if (all)
        for (side = 1; std::lround(std::pow(side + 1, (double)n)) <= values; ++side)
            ;
    c.note([&] { return strf("%d values of %s in %zu inputs", values, all ? "all variables" : "each variable", n); });
    c.nontrivial(n > 1 && side > 1);
    b.prepare(values, all ? fl::FldExporter::AllVariables : fl::FldExporter::EachVariable);
    Table want;
    std::vector<int> digits(n, 0);
    for (;;) {
        Row r;
        for (size_t i = 0; i < n; ++i) {
            auto* v = engine->getInputVariable(i);
            r.push_back(v->getMinimum() + digits[i] * (v->getMaximum() - v->getMinimum()) / std::max(1, side - 1));
        }
        want.push_back(r);
        int k = (int)n - 1;
        while (k >= 0 && ++digits[k] == side)
            digits[k--] = 0;
        if (k < 0)
            break;
    }
    const Table& got = b.getExpected();
    c.check(got.size() == want.size(), "rows", strf("%zu rows instead of %zu", got.size(), want.size()));
    for (size_t i = 0; i < want.size(); ++i)
        for (size_t k = 0; k < n; ++k)
            c.checkf(got[i].size() == n && close(got[i][k], want[i][k], 1e-12, 1e-12), "values", [&] { return show({got[i]}) + " instead of " + show({want[i]}); });
    B none("none");
    bool thrown = false;
    try {
        none.prepare(values, fl::FldExporter::EachVariable);
    } catch (fl::Exception&) {
        thrown = true;
    }
    c.check(thrown, "no-engine", "prepared without engine");
}

// Text with a header, comments, blank lines, and numbers
static void reading(Case& c) {
    Src& s = c.src;
    Table want;
    std::string text;
    bool bad = false;
    long limit = s.chance(1, 3) ? s.range(0, 6) : -1, line = 0;
    std::vector<std::string> lines;
    for (int i = s.range(0, 7); i > 0; --i) {
        std::string l;
        int kind = s.u(8);
        bool first = lines.empty(), counted = limit < 0 || line < limit;
        if (kind == 0)
            l = s.oneOf<std::string>({"# comment", "#1 2 3", "  # comment 4"});
        else if (kind == 1)
            l = s.oneOf<std::string>({"", "  ", "\t"});
        else if (kind == 2 && (first || s.chance(1, 4))) {
            l = s.oneOf<std::string>({"a b c", "Input 2", "1 2x"});
            if (!first && counted)
                bad = true;
        } else {
            Row r;
            for (int k = s.range(1, 4); k > 0; --k) {
                double x = cell(s);
                r.push_back(x);
                l += s.oneOf<std::string>({" ", "  ", "\t"}) + (std::isnan(x) ? "nan" : std::isinf(x) ? x > 0 ? "inf" : "-inf" : strf("%.3f", x));
            }
            if (s.coin())
                l = l.substr(1);
            if (s.chance(1, 4))
                l += s.coin() ? " " : "\r";
            if (counted && !bad)
                want.push_back(r);
        }
        ++line;
        lines.push_back(l);
        text += l + (i > 1 || s.coin() ? "\n" : "");
    }
    c.note([&] { return strf("limit %ld, text:\n", limit) + text; });
    c.nontrivial(limit >= 0 || bad || want.size() < lines.size());
    B b("reading");
    b.setExpected({{1, 2, 3}});
    std::istringstream in(text);
    try {
        if (limit < 0 && s.coin())
            b.prepare(in);
        else
            b.prepare(in, limit);
        c.check(!bad, "accepted", "a line that is not made of numbers is accepted");
        c.check(equal(b.getExpected(), want), "data", "read " + show(b.getExpected()) + " instead of " + show(want));
    } catch (fl::Exception& e) {
        c.check(bad, "rejected", std::string("rejected: ") + e.what());
    }
}

static void running(Case& c) {
    Src& s = c.src;
    model::Engine spec = model::genEngine(s, options());
    c.note([&] { return model::describe(spec); });
    EngineP engine = build::engine(spec), other = build::engine(spec);
    size_t inputs = spec.inputs.size(), outputs = spec.outputs.size();
    double tolerance = s.oneOf<double>({1e-6, 0.01, 1});
    Table data = build::genInputs(s, spec, s.range(1, 5), true);
    bool few = s.chance(1, 10) && inputs > 0;
    size_t at = few ? s.u((uint32_t)data.size()) : data.size();
    // what the engine gives, by hand
    Table obtained;
    other->restart();
    std::string error;
    for (size_t i = 0; i < data.size() && error.empty(); ++i) {
        if (i == at) {
            error = "few";
            break;
        }
        try {
            build::setInputs(*other, data[i]);
            other->process();
        } catch (fl::Exception& e) {
            error = e.what();
            break;
        }
        Row r = data[i];
        for (double y : build::outputs(*other))
            r.push_back(y);
        obtained.push_back(r);
    }
    Table expected = obtained;
    if (!error.empty())
        expected = data;
    if (few)
        expected[at].pop_back();
    int width = s.u(4);
    if (error.empty()) {
        for (auto& r : expected)
            for (size_t k = inputs; k < r.size(); ++k)
                if (s.chance(1, 3))
                    r[k] = s.chance(1, 4) ? cell(s) : r[k] + tolerance * s.oneOf<double>({0.5, 2, -3, 100});
        if (width == 1)  // inputs only
            for (auto& r : expected)
                r.resize(inputs);
        else if (width == 2)
            for (auto& r : expected)
                r.push_back(7);
        else if (width == 3)
            expected[s.u((uint32_t)expected.size())].resize(inputs);
    }
    bool warm = s.coin();  // a used engine
    if (warm) {
        try {
            build::setInputs(*engine, data.back());
            engine->process();
        } catch (fl::Exception&) {
        }
    }
    B b("running", engine.get(), tolerance);
    std::string route;
    if (s.coin() && error.empty()) {
        std::ostringstream text;
        text.precision(17);
        for (auto& r : expected) {
            for (double x : r)
                text << (std::isnan(x) ? "nan" : std::isinf(x) ? x > 0 ? "inf" : "-inf" : strf("%.17g", x)) << " ";
            text << "\n";
        }
        std::istringstream in(text.str());
        b.prepare(in);
        route = " from text";
        if (inputs + outputs == 0 || expected[0].empty())
            c.discard();
    } else
        b.setExpected(expected);
    c.note([&] { return "expected" + route + " " + show(expected); });
    c.check(equal(b.getExpected(), expected), "expected", "expected values are " + show(b.getExpected()) + " instead of " + show(expected));
    size_t total = 0;
    std::vector<double> all;
    for (int k = s.range(1, 3); k > 0; --k) {
        int times = s.range(1, 3);
        try {
            if (times == 1 && s.coin()) {
                double t = b.runOnce();
                all.push_back(t);
                c.check(t >= 0, "time", "time of a run is " + str(t));
            } else {
                std::vector<double> t = b.run(times);
                all.insert(all.end(), t.begin(), t.end());
                c.check(t.size() == (size_t)times, "times", strf("%zu times of %d runs", t.size(), times));
                for (double x : t)
                    c.check(x >= 0, "time", "time of a run is " + str(x));
            }
            c.check(error.empty(), "no-exception", "the run did not raise an exception: " + error);
        } catch (fl::Exception& e) {
            c.check(!error.empty(), "exception", std::string("the run raised ") + e.what());
            return;
        }
        total += times;
        c.check(b.getTimes().size() == total, "times", strf("%zu times of %zu runs", b.getTimes().size(), total));
        c.check(b.getTimes() == all, "times", "the times of the runs are not those returned, one after another");
        c.checkf(equal(b.getObtained(), obtained), "obtained", [&] { return "obtained " + show(b.getObtained()) + " instead of " + show(obtained); });
    }
    c.nontrivial(!equal(expected, obtained));
    checkStatistics(c, b, expected, obtained, tolerance);
    std::vector<B::Result> r = b.results();
    size_t rules = 0;
    for (auto& x : spec.blocks)
        rules += x.rules.size();
    std::map<std::string, size_t> want = {{"inputs", inputs}, {"outputs", outputs}, {"ruleBlocks", spec.blocks.size()}, {"rules", rules}, {"runs", total}, {"evaluations", expected.size()}};
    for (auto& w : want)
        c.check(close(strtod(value(r, w.first).c_str(), nullptr), w.second, 0, 1e-9), "results-" + w.first, w.first + " in results is " + value(r, w.first));
    c.check(value(r, "name") == "running" && value(r, "library") == fl::fuzzylite::library(), "results-name", "name in results is " + value(r, "name"));
    b.reset();
    c.check(b.getTimes().empty() && b.getObtained().empty() && !b.canComputeErrors() && equal(b.getExpected(), expected), "reset", "after reset");
}

static void table(Case& c) {
    Src& s = c.src;
    EngineP engine = frame(s, 1, 2, false);
    size_t columns = engine->variables().size();
    B b("table", engine.get());
    std::vector<double> times;
    for (int i = s.range(0, 4); i > 0; --i)
        times.push_back(std::fabs(s.num(0, 1000)) * s.oneOf<double>({1, 1e3, 1e6, 1e9, 1e12}));
    b.setTimes(times);
    bool errors = s.coin();
    if (errors) {
        b.setExpected({Row(columns, 1.0)});
        b.setObtained({Row(columns, 2.0)});
    }
    static const std::vector<std::pair<B::TimeUnit, std::pair<const char*, double>>> units = {
        {B::NanoSeconds, {"nanoseconds", 1}}, {B::MicroSeconds, {"microseconds", 1e3}}, {B::MilliSeconds, {"milliseconds", 1e6}},
        {B::Seconds, {"seconds", 1e9}},       {B::Minutes, {"minutes", 60e9}},          {B::Hours, {"hours", 3600e9}}};
    auto unit = s.oneOf(units), from = s.oneOf(units);
    double nanos = unit.second.second;
    bool include = s.coin();
    const fl::OutputVariable* y = s.coin() ? engine->getOutputVariable(0) : nullptr;
    c.note([&] { return "times " + build::show(times) + " in " + unit.second.first; });
    c.nontrivial(times.size() > 1 && nanos > 1);
    std::vector<B::Result> r = y ? b.results(y, unit.first, include) : b.results(unit.first, include);
    c.check(value(r, "units") == unit.second.first && B::stringOf(unit.first) == unit.second.first, "units", "units are " + value(r, "units"));
    double x = s.num(-100, 100);
    c.check(close(B::convert(x, from.first, unit.first), x * from.second.second / nanos, 1e-9, 0) && close(B::factorOf(unit.first), 1 / nanos, 1e-9, 0), "convert",
            strf("%g %s is %g %s", x, from.second.first, B::convert(x, from.first, unit.first), unit.second.first));
    long double total = 0, squares = 0;
    for (double t : times)
        total += t;
    size_t n = times.size();
    for (double t : times)
        squares += (t - total / n) * (t - total / n);
    double deviation = n == 0 ? fl::nan : n == 1 ? 0 : (double)std::sqrt(squares / (n - 1));
    auto number = [&](const std::string& key, double want) {
        std::string t = value(r, key);
        double got = t == "nan" ? fl::nan : t == "(none)" ? 12345.678 : strtod(t.c_str(), nullptr);
        c.check(same(got, want) || close(got, want, 1e-9, key == "sum(t)" || key[0] == 't' ? nanos > 1 ? 1e-3 : 1 : 1e-3), "time-results",
                key + " is " + t + " and not " + str(want));
    };
    number("sum(t)", (double)total / nanos);
    number("mean(t)", n ? (double)(total / n) / nanos : fl::nan);
    number("sd(t)", deviation / nanos);
    for (size_t i = 0; i < n; ++i)
        if (include)
            number("t" + std::to_string(i + 1), times[i] / nanos);
        else
            c.check(value(r, "t" + std::to_string(i + 1)) == "(none)", "time-excluded", "times are included");
    // the header that is announced is the one of the results
    std::vector<std::string> names, announced = b.header((int)n, errors);
    if (!include)
        r = b.results(unit.first, true);
    for (auto& x : r)
        names.push_back(x.first);
    c.checkf(names == announced, "header", [&] { return "header is " + fl::Op::join(announced, " ") + " instead of " + fl::Op::join(names, " "); });
    // format
    std::string delimiter = s.oneOf<std::string>({"\t", ",", " | ", ""});
    if (s.chance(1, 4))
        r.resize(s.u((uint32_t)r.size() + 1));
    for (auto contents : {B::Header, B::Body, B::HeaderAndBody})
        for (auto shape : {B::Horizontal, B::Vertical}) {
            std::string want, heads, bodies;
            for (size_t i = 0; i < r.size(); ++i) {
                heads += (i ? delimiter : "") + r[i].first;
                bodies += (i ? delimiter : "") + r[i].second;
                want += (i ? "\n" : "") + (contents == B::Header ? r[i].first : contents == B::Body ? r[i].second : r[i].first + delimiter + r[i].second);
            }
            if (shape == B::Horizontal)
                want = contents == B::Header ? heads : contents == B::Body ? bodies : heads + "\n" + bodies;
            std::string got = b.format(r, shape, contents, delimiter);
            c.check(got == want, "format", strf("contents %d of shape %d: <", contents, shape) + got + "> instead of <" + want + ">");
        }
    bool thrown = false;
    try {
        B none;
        none.run(1);
    } catch (fl::Exception&) {
        thrown = true;
    }
    c.check(thrown, "no-engine", "run without engine");
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P33",
                     {{"statistics", statistics, 30000, 1000000, "at least one expected value differs from the obtained one"},
                      {"prepare", prepare, 6000, 200000, "at least two inputs and two values of each"},
                      {"reading", reading, 30000, 800000, "some lines are not data, or there is a limit"},
                      {"running", running, 5000, 150000, "at least one expected value differs from the obtained one"},
                      {"table", table, 20000, 500000, "at least two runs in a unit larger than nanoseconds"}});
}
