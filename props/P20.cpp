// P20: the exported C++ code compiles, and rebuilds an equivalent engine.
#include "build.h"
#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;

static std::string scratch;  // directory with the precompiled headers
static const char* Std = "-std=gnu++11";

static bool sh(const std::string& cmd) { return system(cmd.c_str()) == 0; }

struct Dir {
    std::string path;
    Dir() {
        std::string t = scratch + "/caseXXXXXX";
        std::vector<char> b(t.begin(), t.end());
        b.push_back(0);
        if (!mkdtemp(b.data()))
            throw Discarded{};
        path = b.data();
    }
    ~Dir() {
        for (const char* f : {"code.cpp", "code.so", "log"})
            unlink((path + "/" + f).c_str());
        rmdir(path.c_str());
    }
};
struct Lib {
    void* h = nullptr;
    ~Lib() {
        if (h)
            dlclose(h);
    }
};
struct Decimals {
    explicit Decimals(int d) { fl::fuzzylite::setDecimals(d); }
    ~Decimals() { fl::fuzzylite::setDecimals(3); }
};

struct Item {
    model::Engine e;
    EngineP a;
    std::string code, fll;
    bool ns, names;
    std::vector<std::vector<double>> in;
};

typedef fl::Engine* (*Builder)();

// the code of all items in one translation unit, compiled and loaded
static void compile(Case& c, const Dir& dir, Lib& lib, const std::vector<Item>& items) {
    std::ofstream f(dir.path + "/code.cpp");
    for (size_t i = 0; i < items.size(); ++i) {
        f << "extern \"C\" fl::Engine* build" << i << "() {\n" << items[i].code << "\nreturn engine;\n}\n";
    }
    f.close();
    std::string base = dir.path + "/code";
    bool ok = sh(std::string("clang++ ") + Std + " -O0 -fPIC -shared -w -include-pch " + scratch + "/pch.h.pch " + base + ".cpp -o " + base + ".so >" + dir.path + "/log 2>&1");
    if (!ok) {
        std::ifstream l(dir.path + "/log");
        std::stringstream t;
        t << l.rdbuf();
        c.fail("compile", "the exported code does not compile: " + t.str().substr(0, 1500));
    }
    lib.h = dlopen((base + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!lib.h)
        c.fail("load", std::string("the compiled code cannot be loaded: ") + dlerror());
}

static void engines(Case& c) {
    Src& s = c.src;
    int n = s.range(1, 8);
    int decimals = s.chance(1, 3) ? s.range(3, 9) : 3;
    Decimals d(decimals);
    std::vector<Item> items;
    bool good = false;
    for (int i = 0; i < n; ++i) {
        model::GenOptions o;
    o.tall = true;
        o.descriptions = true;
        o.wildDescriptions = true;
        o.randomText = s.chance(1, 4);
        o.hedgesAnywhere = true;
        o.emptyTermsAllowed = true;
        o.maxResolution = 60;
        Item it;
        it.e = model::genEngine(s, o);
        for (auto& v : it.e.outputs)
            for (auto& t : v.terms)
                if (t.cls == "Linear")
                    t.p.resize(it.e.inputs.size() + 1, 0.5);
        it.ns = s.coin();
        it.names = s.coin();
        std::set<std::string> used = {"engine"};
        for (auto* vs : {&it.e.inputs, &it.e.outputs})
            for (auto& v : *vs)
                used.insert(v.name);
        for (auto& b : it.e.blocks) {
            for (auto& r : b.rules)
                r.enabled = true;  // the code has no flag for rules
            if (it.names && !b.name.empty()) {  // declarations have distinct names
                while (used.count(b.name))
                    b.name += "_";
                used.insert(b.name);
            }
        }
        bool unnamed = false;
        for (auto& b : it.e.blocks)
            unnamed = unnamed || b.name.empty();
        if (s.chance(1, 6)) {
            for (auto& v : it.e.outputs) {
                if (s.coin()) v.aggregation = "";
                if (s.coin()) v.defuzzifier = "";
            }
            for (auto& b : it.e.blocks) {
                if (s.coin()) b.conjunction = "";
                if (s.coin()) b.disjunction = "";
                if (s.coin()) b.implication = "";
            }
        }
        if (s.chance(1, 8))  // components with little in them
            for (auto& b : it.e.blocks)
                if (s.coin()) {
                    b.rules.clear();
                    b.enabled = s.coin();
                }
        if (s.chance(1, 8))
            for (auto* vs : {&it.e.inputs, &it.e.outputs})
                for (auto& v : *vs)
                    if (s.chance(1, 3)) {
                        v.enabled = s.coin();
                        if (v.output) {
                            v.min = s.coin() ? -model::Inf : v.min;
                            v.max = model::Inf;
                        }
                        if (it.e.blocks.empty())
                            v.terms.clear();
                    }
        if (s.chance(1, 20)) {
            it.e.blocks.clear();
            for (auto& v : it.e.outputs)
                if (s.coin())
                    v.terms.clear();
        }
        if (!it.names && s.chance(1, 4)) {
            it.e.name = s.oneOf(std::vector<std::string>{"", "an \"engine\"", "back\\slash", "a\nb", "t\tb"});
            if (!it.e.blocks.empty())
                it.e.blocks[0].name = s.oneOf(std::vector<std::string>{"", "a \"block\"", "with spaces", "back\\slash"});
        }
        it.a = build::engine(it.e);
        fl::CppExporter x(it.ns, it.names);
        c.check(x.isUsingNamespace() == it.ns && x.isUsingVariableNames() == it.names, "settings", "settings of the exporter");
        it.code = x.toString(it.a.get());
        it.in = build::genInputs(s, it.e, 3, true);
        if (s.coin())
            build::run(*it.a, it.in);
        c.check(x.toString(it.a.get()) == it.code, "values", "the code depends on the values of the engine");
        it.a->restart();
        it.fll = fl::FllExporter().toString(it.a.get());
        c.note([&] { return strf("--- engine %d, %s namespaces, %s variable names, %d decimals\n", i, it.ns ? "with" : "without", it.names ? "with" : "without", decimals) + it.code; });
        items.push_back(std::move(it));
    }
    Dir dir;
    Lib lib;
    compile(c, dir, lib, items);
    for (size_t i = 0; i < items.size(); ++i) {
        Item& it = items[i];
        Builder f = (Builder)dlsym(lib.h, ("build" + std::to_string(i)).c_str());
        EngineP b;
        try {
            b.reset(f());
        } catch (fl::Exception& ex) {
            c.fail("rejected", "running the code throws " + std::string(ex.what()) + "\n" + it.code);
        }
        std::string fll = fl::FllExporter().toString(b.get());
        c.checkf(fll == it.fll, "text", [&] { return "the code builds another engine:\n" + fll + "\ninstead of\n" + it.fll; });
        auto ra = build::run(*it.a, it.in), rb = build::run(*b, it.in);
        std::string diff = build::diff(ra, rb, 1e-12, 1e-12);
        c.checkf(diff.empty(), "behaviour", [&] { return "the engine built by the code behaves differently: " + diff + "\n" + it.fll; });
        for (auto& b : it.e.blocks)
            if (!b.rules.empty())
                for (auto& row : ra.rows)
                    for (double y : row)
                        good = good || std::isfinite(y);
        c.label(it.ns ? "with namespaces" : "without namespaces");
        c.label(it.names ? "with variable names" : "without variable names");
        c.label(ra.error.empty() ? "processed" : "processing throws");
        b.reset();
    }
    c.nontrivial(good);
}

// each component alone
static void components(Case& c) {
    Src& s = c.src;
    int n = s.range(1, 40);
    std::ostringstream code;
    struct Part {
        std::string kind, text;
        bool linear = false;
    };
    std::vector<Part> parts;
    bool ns = s.coin();
    fl::CppExporter x(ns);
    fl::FllExporter fll;
    fl::Engine ref;
    for (const char* v : {"p", "q"})
        ref.addInputVariable(new fl::InputVariable(v, 0, 1));
    auto add = [&](const std::string& kind, const std::string& decl, const std::string& expr, const std::string& text) {
        code << "{ std::unique_ptr<fl::" << decl << "> it(" << expr << "); out.push_back(x.toString(it.get())); }\n";
        parts.push_back({kind, text});
        c.note([&] { return expr + "    // " + text; });
    };
    for (int i = 0; i < n; ++i) {
        switch (s.u(7)) {
            case 0:
            case 1:
            case 2: {
                static const std::vector<std::string> classes
                    = {"Bell", "Binary", "Concave", "Constant", "Cosine", "Discrete", "Gaussian", "GaussianProduct", "PiShape", "Ramp", "Rectangle",
                       "SShape", "Sigmoid", "SigmoidDifference", "SigmoidProduct", "Spike", "Trapezoid", "Triangle", "ZShape", "Arc", "SemiEllipse", "Linear", "Function"};
                std::string cls = s.oneOf(classes), name = s.oneOf(std::vector<std::string>{"t", "a \"term\"", "b\\c", "low", "with space"});
                model::Term t;
                std::unique_ptr<fl::Term> term;
                if (cls == "Linear") {
                    std::vector<fl::scalar> k;
                    size_t m = s.chance(1, 8) ? 3 + s.range(1, 3) : 3;
                    for (size_t j = 0; j < m; ++j)
                        k.push_back(s.chance(1, 8) ? s.oneOf(std::vector<double>{INFINITY, -INFINITY, NAN}) : s.num(-100, 100));
                    term.reset(new fl::Linear(name, k, &ref));
                    if (m != 3) {
                        if (c.isKnown("linear-size"))
                            continue;
                    }
                } else if (cls == "Function") {
                    term.reset(fl::Function::create(name, s.oneOf(std::vector<std::string>{"p + q", "p*2 ^ q", "p and ! q", "sin(p)/ 2 or max( p , q )", "1"}), &ref));
                } else {
                    model::GenOptions o;
    o.tall = true;
                    if (cls == "Arc" || cls == "SemiEllipse") {
                        bool known = false;
                        for (auto& k : fl::FactoryManager::instance()->term()->available())
                            known = known || k == cls;
                        if (!known)
                            cls = "Triangle";
                    }
                    t = model::genTerm(s, cls, name, -5, 5, o);
                    if (t.cls == "Discrete" && t.p.empty())
                        continue;
                    if (s.chance(1, 5) && !t.p.empty() && t.cls != "Triangle" && t.cls != "Trapezoid")  // undefined numbers
                        t.p[s.u(t.p.size())] = s.oneOf(std::vector<double>{NAN, INFINITY, -INFINITY});
                    term.reset(build::term(t, &ref));
                }
                add("term", "Term", x.toString(term.get()), fll.toString(term.get()));
                break;
            }
            case 3: {
                static const std::vector<std::string> acts = {"General", "First", "Last", "Highest", "Lowest", "Proportional", "Threshold"};
                model::Activation a;
                a.cls = s.oneOf(acts);
                a.n = s.range(1, 9);
                a.threshold = s.num(0, 1);
                a.comparison = s.oneOf(std::vector<std::string>{">=", "<", "<=", "==", "!=", ">"});
                std::unique_ptr<fl::Activation> p(build::activation(a));
                add("activation", "Activation", x.toString(p.get()), fll.toString(p.get()));
                break;
            }
            case 4: {
                std::unique_ptr<fl::Norm> p(build::norm(s.coin() ? s.oneOf(model::tnorms()) : s.oneOf(model::snorms())));
                add("norm", "Norm", x.toString(p.get()), fll.toString(p.get()));
                break;
            }
            case 5: {
                model::Variable v;
                v.defuzzifier = s.oneOf(std::vector<std::string>{"Centroid", "Bisector", "MeanOfMaximum", "SmallestOfMaximum", "LargestOfMaximum", "WeightedAverage", "WeightedSum"});
                v.resolution = s.range(1, 3000);
                v.weightedType = s.oneOf(std::vector<std::string>{"Automatic", "TakagiSugeno", "Tsukamoto"});
                std::unique_ptr<fl::Defuzzifier> p(build::defuzzifier(v));
                add("defuzzifier", "Defuzzifier", x.toString(p.get()), fll.toString(p.get()) + strf("#%d", dynamic_cast<fl::IntegralDefuzzifier*>(p.get()) ? v.resolution : -1));
                break;
            }
            default: {
                std::vector<std::string> hs = fl::FactoryManager::instance()->hedge()->available();
                std::string name = s.oneOf(hs);
                if (name.empty())
                    continue;
                std::unique_ptr<fl::Hedge> p(fl::FactoryManager::instance()->hedge()->constructObject(name));
                code << "{ std::unique_ptr<fl::Hedge> it(" << x.toString(p.get()) << "); out.push_back(it->name()); }\n";
                parts.push_back({"hedge", p->name()});
                c.note([&] { return x.toString(p.get()); });
            }
        }
    }
    if (parts.empty())
        c.discard();
    // the resolution is also compared: FLL omits the default one
    std::string body = code.str();
    Dir dir;
    Lib lib;
    {
        std::ofstream f(dir.path + "/code.cpp");
        f << "struct X : fl::FllExporter {\n  using fl::FllExporter::toString;\n  std::string toString(const fl::Defuzzifier* d) const {\n"
             "    const fl::IntegralDefuzzifier* i = dynamic_cast<const fl::IntegralDefuzzifier*>(d);\n"
             "    std::ostringstream s;\n    s << fl::FllExporter::toString(d) << '#' << (i ? i->getResolution() : -1);\n    return s.str();\n  }\n};\n";
        f << "extern \"C\" void build(fl::Engine* engine, std::vector<std::string>& out) {\n";
        if (!ns)
            f << "using namespace fuzzylite;\n";
        f << "X x;\n" << body << "}\n";
    }
    std::string base = dir.path + "/code";
    if (!sh(std::string("clang++ ") + Std + " -O0 -fPIC -shared -w -include-pch " + scratch + "/pch.h.pch " + base + ".cpp -o " + base + ".so >" + dir.path + "/log 2>&1")) {
        std::ifstream l(dir.path + "/log");
        std::stringstream t;
        t << l.rdbuf();
        c.fail("compile", "the exported code does not compile: " + t.str().substr(0, 1500));
    }
    lib.h = dlopen((base + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
    c.check(lib.h, "load", "the compiled code cannot be loaded");
    std::vector<std::string> out;
    auto f = (void (*)(fl::Engine*, std::vector<std::string>&))dlsym(lib.h, "build");
    try {
        f(&ref, out);
    } catch (fl::Exception& ex) {
        c.fail("rejected", std::string("running the code throws ") + ex.what());
    }
    c.check(out.size() == parts.size(), "size", "number of parts");
    for (size_t i = 0; i < out.size(); ++i) {
        c.checkf(out[i] == parts[i].text, parts[i].kind, [&] { return "the code builds <" + out[i] + "> instead of <" + parts[i].text + ">"; });
        c.label(parts[i].kind);
    }
    c.nontrivial(true);
}

int main(int argc, char** argv) {
    char dir[] = "/tmp/verifP20XXXXXX";
    if (!mkdtemp(dir))
        return 2;
    scratch = dir;
    {
        std::ofstream f(scratch + "/pch.h");
        f << "#include \"fl/Headers.h\"\n#include <memory>\n";
    }
    int rc = 2;
    if (sh(std::string("clang++ ") + Std + " -O0 -fPIC -w -I" VERIF_REPO " -x c++-header " + scratch + "/pch.h -o " + scratch + "/pch.h.pch"))
        rc = pbt::main(argc, argv, "P20", {
            {"engines", engines, 800, 20000, "an engine with rules has a finite output"},
            {"components", components, 250, 5000, "at least one component"},
        });
    std::filesystem::remove_all(scratch);
    return rc;
}
