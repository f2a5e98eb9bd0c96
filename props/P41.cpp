// P41: texts of parts and wholes, layout, files and copies of exporters and importers.
#include "build.h"
#include <algorithm>
#include <fstream>
#include <unistd.h>
using namespace pbt;

static std::vector<std::string> lines(const std::string& t) {
    std::vector<std::string> r;
    std::istringstream is(t);
    std::string l;
    while (std::getline(is, l))
        r.push_back(l);
    return r;
}
static std::string replaceAll(std::string t, const std::string& a, const std::string& b) {
    for (size_t p = 0; (p = t.find(a, p)) != std::string::npos; p += b.size())
        t.replace(p, a.size(), b);
    return t;
}
static std::string trim(const std::string& t) {
    size_t a = t.find_first_not_of(" \t\r\n"), b = t.find_last_not_of(" \t\r\n");
    return a == std::string::npos ? "" : t.substr(a, b - a + 1);
}
static std::string squeeze(const std::string& t) {  // without any white space
    std::string r;
    for (char c : t)
        if (!isspace((unsigned char)c))
            r += c;
    return r;
}
static model::GenOptions options() {
    model::GenOptions o;
    o.maxRules = 4;
    o.maxResolution = 20;
    o.tall = true;
    return o;
}
// an engine with descriptions, disabled and incomplete components
static EngineP genAny(Case& c, model::Engine& e) {
    Src& s = c.src;
    e = model::genEngine(s, options());
    EngineP a = build::engine(e);
    static const std::vector<std::string> names = {"", "an engine", "something with words", "x"};
    a->setDescription(s.oneOf(names));
    for (auto* v : a->variables()) {
        v->setDescription(s.chance(1, 3) ? s.oneOf(names) : "");
        v->setEnabled(!s.chance(1, 5));
        v->setLockValueInRange(s.chance(1, 5));
    }
    for (auto* o : a->outputVariables()) {
        if (s.chance(1, 6))
            o->setDefuzzifier(nullptr);
        if (s.chance(1, 6))
            o->setAggregation(nullptr);
    }
    for (auto* b : a->ruleBlocks()) {
        b->setDescription(s.chance(1, 3) ? s.oneOf(names) : "");
        b->setEnabled(!s.chance(1, 5));
        if (s.chance(1, 6))
            b->setImplication(nullptr);
        if (s.chance(1, 6))
            b->setActivation(nullptr);
    }
    c.note([&] { return fl::FllExporter().toString(a.get()); });
    return a;
}
// the parts are in the whole, one after the other, and nothing but the head before and the foot after them
static void inOrder(Case& c, const std::string& whole, const std::vector<std::string>& parts, const std::string& key, const std::string& gap) {
    size_t at = std::string::npos;
    for (size_t i = 0; i < parts.size(); ++i) {
        size_t p = i ? whole.find(parts[i], at) : whole.find(parts[i]);
        c.checkf(p != std::string::npos, key, [&] { return "the text of a part is not in that of the engine:\n" + parts[i] + "\nin\n" + whole; });
        c.checkf(!i || trim(whole.substr(at, p - at)).empty(), key, [&] { return "between the parts there is <" + whole.substr(at, p - at) + "> in\n" + whole; });
        at = p + parts[i].size();
    }
    std::string foot = at == std::string::npos ? "" : trim(whole.substr(at));
    c.checkf(parts.empty() || foot == gap, key, [&] { return "after the parts there is <" + foot + "> in\n" + whole; });
}
template <class V>
static std::string joined(const fl::FllExporter& x, const V& v, const std::string& separator) {
    std::string r;
    for (size_t i = 0; i < v.size(); ++i)
        r += (i ? separator : "") + x.toString(v[i]);
    return r;
}

static void parts(Case& c) {
    Src& s = c.src;
    model::Engine e;
    EngineP a = genAny(c, e);
    auto in = a->inputVariables();
    auto out = a->outputVariables();
    auto blocks = a->ruleBlocks();
    std::string kind;
    switch (s.u(5)) {
        case 0: {
            kind = "fll";
            std::string separator = s.oneOf(std::vector<std::string>{"\n", ";", "\n\n", " | ", "@"});
            fl::FllExporter x(s.oneOf(std::vector<std::string>{"  ", "", "\t", "    "}), separator);
            std::vector<std::string> all;
            std::vector<fl::Variable*> vs;
            std::string head = "Engine: " + a->getName();
            if (!a->getDescription().empty())
                head += separator + "description: " + a->getDescription();
            for (auto* v : in) { all.push_back(x.toString(v)); vs.push_back(v); }
            for (auto* v : out) { all.push_back(x.toString(v)); vs.push_back(v); }
            for (auto* b : blocks) all.push_back(x.toString(b));
            std::string want = head;
            for (auto& t : all)
                want += separator + t;
            std::string got = x.toString(a.get());
            c.checkf(got == want, "fll-engine", [&] { return "the engine's text is\n" + got + "\nthe parts are\n" + want; });
            c.check(x.toString(in) == joined(x, in, separator), "fll-lists", "the text of the input variables is\n" + x.toString(in));
            c.check(x.toString(out) == joined(x, out, separator), "fll-lists", "the text of the output variables is\n" + x.toString(out));
            c.check(x.toString(blocks) == joined(x, blocks, separator), "fll-lists", "the text of the rule blocks is\n" + x.toString(blocks));
            c.check(x.toString(vs) == joined(x, vs, separator), "fll-lists", "the text of the variables is\n" + x.toString(vs));
            for (auto* v : vs)
                c.check(x.toString(v->terms()) == joined(x, v->terms(), separator), "fll-lists", "the text of the terms is\n" + x.toString(v->terms()));
            // the text of an input variable is that of a variable but for its kind
            for (auto* v : in)
                c.check("Input" + x.toString((const fl::Variable*)v) == x.toString((const fl::InputVariable*)v), "fll-variable", "variable and input variable: " + x.toString((const fl::Variable*)v));
            // lines of the components
            const std::string& ind = x.getIndent();
            auto has = [&](const std::string& t, const std::string& line, const char* what) {
                std::string all2 = separator + t + separator;
                c.checkf(all2.find(separator + ind + line + separator) != std::string::npos, "fll-lines", [&] { return std::string(what) + " <" + line + "> is not a line of " + t; });
            };
            for (auto* v : in)
                for (auto* t : v->terms())
                    has(x.toString(v), x.toString(t), "term");
            for (auto* v : out) {
                std::string t = x.toString(v);
                for (auto* q : v->terms())
                    has(t, x.toString(q), "term");
                has(t, "aggregation: " + x.toString(v->getAggregation()), "aggregation");
                has(t, "defuzzifier: " + x.toString(v->getDefuzzifier()), "defuzzifier");
            }
            for (auto* b : blocks) {
                std::string t = x.toString(b);
                for (auto* r : b->rules())
                    has(t, x.toString(r), "rule");
                has(t, "conjunction: " + x.toString(b->getConjunction()), "conjunction");
                has(t, "disjunction: " + x.toString(b->getDisjunction()), "disjunction");
                has(t, "implication: " + x.toString(b->getImplication()), "implication");
                has(t, "activation: " + x.toString(b->getActivation()), "activation");
            }
            // the objects' own texts
            fl::FllExporter y;
            c.check(a->toString() == y.toString(a.get()), "fll-object", "text of the engine");
            for (auto* v : in)
                c.check(v->toString() == y.toString(v), "fll-object", "text of the input variable " + v->toString());
            for (auto* v : out)
                c.check(v->toString() == y.toString(v), "fll-object", "text of the output variable " + v->toString());
            for (auto* v : vs) {
                c.check(v->toString() == (v->type() == fl::Variable::Input ? y.toString((fl::InputVariable*)v) : y.toString((fl::OutputVariable*)v)), "fll-object", "text of the variable " + v->toString());
                for (auto* t : v->terms())
                    c.check(t->toString() == y.toString(t), "fll-object", "text of the term " + t->toString());
            }
            for (auto* b : blocks) {
                c.check(b->toString() == y.toString(b), "fll-object", "text of the rule block " + b->toString());
                for (auto* r : b->rules())
                    c.check(r->toString() == y.toString(r), "fll-object", "text of the rule " + r->toString());
            }
            break;
        }
        case 1: {
            kind = "fcl";
            fl::FclExporter x(s.oneOf(std::vector<std::string>{"  ", "", "\t", "    "}));
            std::vector<std::string> all;
            for (auto* v : in) all.push_back(x.toString(v));
            for (auto* v : out) all.push_back(x.toString(v));
            for (auto* b : blocks) all.push_back(x.toString(b));
            inOrder(c, x.toString(a.get()), all, "fcl-engine", "END_FUNCTION_BLOCK");
            auto has = [&](const std::string& t, const std::string& line, bool yes, const char* what) {
                c.checkf((t.find("\n" + x.getIndent() + line + ";\n") != std::string::npos) == yes, "fcl-lines", [&] { return std::string(what) + " <" + line + (yes ? "> is not" : "> is") + " a line of " + t; });
            };
            for (auto* v : in)
                for (auto* t : v->terms())
                    has(x.toString(v), "TERM " + t->getName() + " := " + x.toString(t), true, "term");
            for (auto* v : out) {
                std::string t = x.toString(v);
                for (auto* q : v->terms())
                    has(t, "TERM " + q->getName() + " := " + x.toString(q), true, "term");
                has(t, "METHOD : " + x.toString(v->getDefuzzifier()), v->getDefuzzifier(), "method");
                has(t, "ACCU : " + x.toString(v->getAggregation()), v->getAggregation(), "accumulation");
            }
            for (auto* b : blocks) {
                std::string t = x.toString(b);
                has(t, "AND : " + x.toString(b->getConjunction()), b->getConjunction(), "conjunction");
                has(t, "OR : " + x.toString(b->getDisjunction()), b->getDisjunction(), "disjunction");
                has(t, "ACT : " + x.toString(b->getImplication()), b->getImplication(), "implication");
            }
            break;
        }
        case 2: {
            kind = "fis";
            fl::FisExporter x;
            // system, inputs, outputs and rules, where it can be exported
            std::string whole;
            try {
                whole = x.toString(a.get());
            } catch (fl::Exception&) {
                c.discard();
            }
            for (auto* v : a->variables())
                for (size_t i = 0; i < v->numberOfTerms(); ++i) {
                    std::string l = strf("\nMF%d='", (int)i + 1) + v->getTerm(i)->getName() + "':" + x.toString(v->getTerm(i)) + "\n";
                    c.checkf(whole.find(l) != std::string::npos, "fis-terms", [&] { return "there is no line" + l + "in\n" + whole; });
                }
            auto first = [&](const char* key, const std::string& value) {
                std::string l = std::string("\n") + key + "='" + value + "'\n";
                c.checkf(whole.find(l) != std::string::npos, "fis-system", [&] { return "there is no line" + l + "in\n" + whole; });
            };
            // the first operator of each kind
            const fl::TNorm *con = nullptr, *imp = nullptr;
            const fl::SNorm *dis = nullptr, *agg = nullptr;
            const fl::Defuzzifier* def = nullptr;
            for (auto* b : blocks) {
                con = con ? con : b->getConjunction();
                dis = dis ? dis : b->getDisjunction();
                imp = imp ? imp : b->getImplication();
            }
            for (auto* o : out) {
                agg = agg ? agg : o->getAggregation();
                def = def ? def : o->getDefuzzifier();
            }
            if (con) first("AndMethod", x.toString(con));
            if (dis) first("OrMethod", x.toString(dis));
            if (imp) first("ImpMethod", x.toString(imp));
            if (agg) first("AggMethod", x.toString(agg));
            if (def) first("DefuzzMethod", x.toString(def));
            break;
        }
        case 3: {
            kind = "cpp";
            fl::CppExporter x(s.coin(), s.coin());
            std::vector<std::string> all;
            for (auto* v : in) all.push_back(x.toString(v, a.get()));
            for (auto* v : out) all.push_back(x.toString(v, a.get()));
            for (auto* b : blocks) all.push_back(x.toString(b, a.get()));
            inOrder(c, x.toString(a.get()), all, "cpp-engine", "");
            auto has = [&](const std::string& t, const std::string& call) {
                c.checkf(t.find(call) != std::string::npos, "cpp-calls", [&] { return "there is no <" + call + "> in\n" + t; });
            };
            for (auto* v : a->variables()) {
                std::string t = v->type() == fl::Variable::Input ? x.toString((fl::InputVariable*)v, a.get()) : x.toString((fl::OutputVariable*)v, a.get());
                for (auto* q : v->terms())
                    has(t, "->addTerm(" + x.toString(q) + ");");
            }
            for (auto* o : out) {
                has(x.toString(o, a.get()), "->setDefuzzifier(" + x.toString(o->getDefuzzifier()) + ");");
                has(x.toString(o, a.get()), "->setAggregation(" + x.toString(o->getAggregation()) + ");");
            }
            for (auto* b : blocks) {
                std::string t = x.toString(b, a.get());
                has(t, "->setConjunction(" + x.toString(b->getConjunction()) + ");");
                has(t, "->setDisjunction(" + x.toString(b->getDisjunction()) + ");");
                has(t, "->setImplication(" + x.toString(b->getImplication()) + ");");
                has(t, "->setActivation(" + x.toString(b->getActivation()) + ");");
            }
            c.check(x.toString((fl::Term*)nullptr) == "fl::null", "cpp-null", "no term: " + x.toString((fl::Term*)nullptr));
            // the hedges' classes
            static const std::vector<std::pair<std::string, std::string>> hedges
                = {{"any", "Any"}, {"extremely", "Extremely"}, {"not", "Not"}, {"seldom", "Seldom"}, {"somewhat", "Somewhat"}, {"very", "Very"}};
            auto& h = hedges[s.u(6)];
            std::unique_ptr<fl::Hedge> hedge(fl::FactoryManager::instance()->hedge()->constructObject(h.first));
            std::string got = x.toString(hedge.get()), want = std::string("new ") + (x.isUsingNamespace() ? "fl::" : "") + h.second;
            c.check(got == want, "cpp-hedge", got + " instead of " + want);
            break;
        }
        default: {
            kind = "java";
            fl::JavaExporter x(s.coin());
            std::vector<std::string> all;
            for (auto* v : in) all.push_back(x.toString(v, a.get()));
            for (auto* v : out) all.push_back(x.toString(v, a.get()));
            for (auto* b : blocks) all.push_back(x.toString(b, a.get()));
            inOrder(c, x.toString(a.get()), all, "java-engine", "");
            auto has = [&](const std::string& t, const std::string& call) {
                c.checkf(t.find(call) != std::string::npos, "java-calls", [&] { return "there is no <" + call + "> in\n" + t; });
            };
            for (auto* v : a->variables()) {
                std::string t = v->type() == fl::Variable::Input ? x.toString((fl::InputVariable*)v, a.get()) : x.toString((fl::OutputVariable*)v, a.get());
                for (auto* q : v->terms())
                    has(t, ".addTerm(" + x.toString(q) + ");");
            }
            for (auto* o : out) {
                has(x.toString(o, a.get()), ".setDefuzzifier(" + x.toString(o->getDefuzzifier()) + ");");
                has(x.toString(o, a.get()), ".setAggregation(" + x.toString(o->getAggregation()) + ");");
            }
            for (auto* b : blocks) {
                std::string t = x.toString(b, a.get());
                has(t, ".setConjunction(" + x.toString(b->getConjunction()) + ");");
                has(t, ".setDisjunction(" + x.toString(b->getDisjunction()) + ");");
                has(t, ".setImplication(" + x.toString(b->getImplication()) + ");");
                has(t, ".setActivation(" + x.toString(b->getActivation()) + ");");
            }
            c.check(x.toString((fl::Term*)nullptr) == "null", "java-null", "no term: " + x.toString((fl::Term*)nullptr));
        }
    }
    c.nontrivial(a->numberOfRuleBlocks() && a->getRuleBlock(0)->numberOfRules() > 0);
    c.label(kind);
}

static void layout(Case& c) {
    Src& s = c.src;
    model::Engine e;
    EngineP a = genAny(c, e);
    if (s.chance(1, 4)) {  // indentation of FCL
        fl::FclExporter x, y(s.oneOf(std::vector<std::string>{"", "\t", "      "}));
        std::string t = x.toString(a.get()), u = y.toString(a.get());
        auto l = lines(t), m = lines(u);
        c.check(l.size() == m.size(), "fcl-indent", "other lines with another indentation:\n" + u);
        for (size_t i = 0; i < l.size(); ++i) {
            bool inner = l[i].compare(0, 2, "  ") == 0;
            std::string want = inner ? y.getIndent() + l[i].substr(2) : l[i];
            c.checkf(m[i] == want, "fcl-indent", [&] { return "the line <" + m[i] + "> instead of <" + want + ">"; });
        }
        EngineP p, q;
        std::string error[2];
        try { p.reset(fl::FclImporter().fromString(t)); } catch (fl::Exception& x) { error[0] = "exception"; }
        try { q.reset(fl::FclImporter().fromString(u)); } catch (fl::Exception& x) { error[1] = "exception"; }
        c.check(error[0] == error[1], "fcl-indent", "imports only with one indentation:\n" + u);
        if (p && q)
            c.check(p->toString() == q->toString(), "fcl-indent", "another engine with the indentation:\n" + q->toString());
        c.nontrivial(p && q && p->numberOfRuleBlocks() && p->getRuleBlock(0)->numberOfRules());
        c.label("fcl");
        return;
    }
    static const std::vector<std::string> separators = {"\n", ";", "\n\n", " | ", "@", ";;", "\r\n"};
    std::string indent = s.oneOf(std::vector<std::string>{"  ", "", "\t", "      "}), separator = s.oneOf(separators);
    fl::FllExporter x, y;
    if (s.coin())
        y = fl::FllExporter(indent, separator);
    else {
        y.setIndent(indent);
        y.setSeparator(separator);
    }
    c.check(y.getIndent() == indent && y.getSeparator() == separator, "settings", "the indentation and separator are not those that were set");
    std::string t = x.toString(a.get()), u = y.toString(a.get());
    std::string want;
    bool first = true;
    for (auto& l : lines(t)) {
        want += (first ? "" : separator) + (l.compare(0, 2, "  ") == 0 ? indent + l.substr(2) : l);
        first = false;
    }
    c.checkf(u == want, "layout", [&] { return "the text is\n" + u + "\ninstead of\n" + want; });
    fl::FllImporter im(s.coin() ? separator : std::string("\n"));
    im.setSeparator(separator);
    c.check(im.getSeparator() == separator, "settings", "the separator of the importer is not the one that was set");
    EngineP b;
    try {
        b.reset(im.fromString(u));
    } catch (fl::Exception& ex) {
        c.fail("import", std::string("the importer with the same separator fails: ") + ex.what() + "\n" + u);
    }
    EngineP d(fl::FllImporter().fromString(t));
    c.checkf(b->toString() == d->toString(), "import", [&] { return "importing with the same separator gives\n" + b->toString() + "\ninstead of\n" + d->toString(); });
    c.nontrivial(a->numberOfRuleBlocks() && a->getRuleBlock(0)->numberOfRules() > 0 && (separator != "\n" || indent != "  "));
    c.label("fll");
}

struct Folder {
    std::string path;
    std::vector<std::string> files;
    Folder() {
        char dir[] = "p41XXXXXX";
        if (mkdtemp(dir))
            path = dir;
    }
    std::string file(const std::string& name) {
        files.push_back(path + "/" + name);
        return files.back();
    }
    ~Folder() {
        for (auto& f : files)
            unlink(f.c_str());
        if (!path.empty())
            rmdir(path.c_str());
    }
};
static std::string slurp(const std::string& path) {
    std::ifstream f(path, std::ios::binary);
    std::stringstream t;
    t << f.rdbuf();
    return t.str();
}

static std::unique_ptr<fl::Exporter> exporter(Src& s, std::string& kind, const fl::Engine* e) {
    switch (s.u(7)) {
        case 0: kind = "fll"; return std::unique_ptr<fl::Exporter>(new fl::FllExporter(s.coin() ? "\t" : "  ", s.coin() ? ";" : "\n"));
        case 1: kind = "fcl"; return std::unique_ptr<fl::Exporter>(new fl::FclExporter(s.coin() ? "\t" : "  "));
        case 2: kind = "fis"; return std::unique_ptr<fl::Exporter>(new fl::FisExporter);
        case 3: kind = "cpp"; return std::unique_ptr<fl::Exporter>(new fl::CppExporter(s.coin(), s.coin()));
        case 4: kind = "java"; return std::unique_ptr<fl::Exporter>(new fl::JavaExporter(s.coin()));
        case 5: {
            kind = "fld";
            std::unique_ptr<fl::FldExporter> x(new fl::FldExporter(s.coin() ? "," : " "));
            x->setExportHeader(s.coin());
            x->setExportInputValues(s.coin());
            x->setExportOutputValues(s.coin());
            return std::move(x);
        }
        default: {
            kind = "R";
            std::unique_ptr<fl::RScriptExporter> x(new fl::RScriptExporter);
            x->setMinimumColor(s.oneOf(std::vector<std::string>{"yellow", "blue"}));
            x->setMaximumColor(s.oneOf(std::vector<std::string>{"red", "white"}));
            x->setContourColor(s.oneOf(std::vector<std::string>{"black", "green"}));
            return std::move(x);
        }
    }
}
static std::string attempt(const fl::Exporter& x, const fl::Engine* e) {
    try {
        return x.toString(e);
    } catch (fl::Exception&) {
        return "<exception>";
    }
}

// few points, so that data are quick to write
static void files(Case& c) {
    Src& s = c.src;
    model::Engine e;
    EngineP a = genAny(c, e);
    std::string kind;
    auto x = exporter(s, kind, a.get());
    // the default numbers of points of data are large
    bool data = kind == "fld" || kind == "R";
    if (data && !s.chance(1, 20))
        kind = "fll", x.reset(new fl::FllExporter), data = false;
    if (data) {
        for (auto* b : a->ruleBlocks())
            if (!b->getActivation())
                b->setActivation(new fl::General);
        a->restart();
    }
    std::string text = attempt(*x, a.get());
    if (data)
        a->restart();
    Folder folder;
    if (folder.path.empty())
        c.discard();
    std::string path = folder.file("engine." + kind);
    bool before = s.coin();
    if (before) {  // files are replaced
        std::ofstream f(path);
        for (int i = 0; i < 500; ++i)
            f << "something that was there before\n";
    }
    bool failed = false;
    try {
        x->toFile(path, a.get());
    } catch (fl::Exception&) {
        failed = true;
    }
    c.checkf(failed == (text == "<exception>"), "written", [&] { return std::string(failed ? "failed to write " : "wrote ") + text; });
    if (!failed)
        c.checkf(trim(slurp(path)) == trim(text), "content", [&] {
            auto l = lines(trim(slurp(path))), m = lines(trim(text));
            size_t i = 0;
            while (i < l.size() && i < m.size() && l[i] == m[i])
                ++i;
            return "line " + std::to_string(i) + " of the file is <" + (i < l.size() ? l[i] : "(no line)") + "> instead of <" + (i < m.size() ? m[i] : "(no line)") + ">";
        });
    // a place that does not exist
    bool reported = false;
    try {
        x->toFile(folder.path + "/nowhere/file", a.get());
    } catch (fl::Exception& ex) {
        reported = *ex.what();
    }
    c.check(reported, "unwritable", "writing where there is no folder is not reported by the exporter " + x->name());
    // importing
    std::unique_ptr<fl::Importer> im;
    if (kind == "fll") {
        auto* i = new fl::FllImporter;
        if (auto* f = dynamic_cast<fl::FllExporter*>(x.get()))
            i->setSeparator(f->getSeparator());
        im.reset(i);
    } else if (kind == "fcl")
        im.reset(new fl::FclImporter);
    else if (kind == "fis")
        im.reset(new fl::FisImporter);
    if (im && !failed) {
        std::string layout = s.oneOf(std::vector<std::string>{"", "", "no end of line", "carriage returns"});
        if (layout == "no end of line" || layout == "carriage returns") {
            std::string t = trim(text);
            if (layout == "carriage returns")
                t = replaceAll(t, "\n", "\r\n") + "\r\n";
            std::ofstream f(path, std::ios::binary);
            f << t;
            text = t;
        }
        std::string one, two;
        try {
            EngineP p(im->fromString(text));
            one = p->toString();
        } catch (fl::Exception&) {
            one = "<exception>";
        }
        try {
            EngineP p(im->fromFile(path));
            two = p->toString();
        } catch (fl::Exception&) {
            two = "<exception>";
        }
        c.checkf(one == two, "imported", [&] { return "from the file\n" + two + "\nfrom the text\n" + one; });
        bool missing = false;
        try {
            EngineP p(im->fromFile(folder.path + "/absent"));
        } catch (fl::Exception& ex) {
            missing = *ex.what();
        }
        c.check(missing, "unreadable", "importing a file that does not exist is not reported");
    }
    c.nontrivial(!failed && a->numberOfRuleBlocks() && a->getRuleBlock(0)->numberOfRules() > 0);
    c.label(kind);
}

static void copies(Case& c) {
    Src& s = c.src;
    model::Engine e;
    EngineP a = genAny(c, e);
    std::string kind;
    auto x = exporter(s, kind, a.get());
    std::unique_ptr<fl::Exporter> y(x->clone()), z;
    if (auto* q = dynamic_cast<fl::FllExporter*>(x.get())) {
        z.reset(new fl::FllExporter(*q));
        auto* r = dynamic_cast<fl::FllExporter*>(y.get());
        c.check(r && r->getIndent() == q->getIndent() && r->getSeparator() == q->getSeparator(), "settings", "the copy has other settings");
        std::unique_ptr<fl::FllImporter> i(new fl::FllImporter(q->getSeparator())), j(i->clone());
        c.check(j->getSeparator() == i->getSeparator() && j->name() == i->name(), "settings", "the copy of the importer has another separator");
    } else if (auto* q = dynamic_cast<fl::FclExporter*>(x.get())) {
        auto* r = dynamic_cast<fl::FclExporter*>(y.get());
        c.check(r && r->getIndent() == q->getIndent(), "settings", "the copy has other settings");
    } else if (auto* q = dynamic_cast<fl::CppExporter*>(x.get())) {
        auto* r = dynamic_cast<fl::CppExporter*>(y.get());
        c.check(r && r->isUsingNamespace() == q->isUsingNamespace() && r->isUsingVariableNames() == q->isUsingVariableNames(), "settings", "the copy has other settings");
    } else if (auto* q = dynamic_cast<fl::JavaExporter*>(x.get())) {
        auto* r = dynamic_cast<fl::JavaExporter*>(y.get());
        c.check(r && r->isUsingVariableNames() == q->isUsingVariableNames(), "settings", "the copy has other settings");
    } else if (auto* q = dynamic_cast<fl::FldExporter*>(x.get())) {
        auto* r = dynamic_cast<fl::FldExporter*>(y.get());
        c.check(r && r->getSeparator() == q->getSeparator() && r->exportsHeader() == q->exportsHeader() && r->exportsInputValues() == q->exportsInputValues() && r->exportsOutputValues() == q->exportsOutputValues(),
            "settings", "the copy has other settings");
        int values = s.range(1, 20);
        auto run = [&](fl::FldExporter* w) {
            try {
                return w->toString(a.get(), values, fl::FldExporter::AllVariables);
            } catch (fl::Exception&) {
                return std::string("<exception>");
            }
        };
        a->restart();
        std::string one = run(q);
        a->restart();
        std::string two = run(r);
        c.check(one == two, "text", "the copy writes\n" + two + "\ninstead of\n" + one);
        c.check(q->header(a.get()) == r->header(a.get()), "text", "the copy writes the header " + r->header(a.get()));
        c.nontrivial(one != "<exception>");
        c.label(kind);
        return;
    } else if (auto* q = dynamic_cast<fl::RScriptExporter*>(x.get())) {
        auto* r = dynamic_cast<fl::RScriptExporter*>(y.get());
        c.check(r && r->getMinimumColor() == q->getMinimumColor() && r->getMaximumColor() == q->getMaximumColor() && r->getContourColor() == q->getContourColor(), "settings", "the copy has other settings");
        c.nontrivial(true);
        c.label(kind);
        return;
    }
    std::string one = attempt(*x, a.get()), two = attempt(*y, a.get());
    c.checkf(one == two && x->name() == y->name(), "text", [&] { return "the copy writes\n" + two + "\ninstead of\n" + one; });
    if (z)
        c.check(attempt(*z, a.get()) == one, "text", "the copy writes other text");
    x.reset();
    c.check(attempt(*y, a.get()) == one, "text", "the copy writes other text after the original is gone");
    c.nontrivial(one != "<exception>");
    c.label(kind);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P41", {
        {"parts", parts, 12000, 300000, "the engine has rules"},
        {"layout", layout, 8000, 200000, "the engine has rules and another layout"},
        {"files", files, 4000, 60000, "a file was written for an engine with rules"},
        {"copies", copies, 6000, 100000, "text was written"},
    });
}
