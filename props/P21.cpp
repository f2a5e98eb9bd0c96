// P21: the exported Java code is interpreted, and rebuilds the same engine.
#include "build.h"
using namespace pbt;

struct Decimals {
    explicit Decimals(int d) { fl::fuzzylite::setDecimals(d); }
    ~Decimals() { fl::fuzzylite::setDecimals(3); }
};
struct Bad {
    std::string what;
};

// ---------------------------------------------------------------- lexer of the subset of Java
struct Token {
    char kind;  // i identifier, n number, s string, p punctuation, e end
    std::string text;
};
static std::vector<Token> lex(const std::string& t) {
    std::vector<Token> r;
    size_t i = 0;
    auto id = [](char c) { return isalnum((unsigned char)c) || c == '_' || c == '$'; };
    while (i < t.size()) {
        char c = t[i];
        if (isspace((unsigned char)c)) {
            ++i;
        } else if (t.compare(i, 2, "//") == 0) {
            while (i < t.size() && t[i] != '\n')
                ++i;
        } else if (t.compare(i, 2, "/*") == 0) {
            i = t.find("*/", i + 2);
            if (i == std::string::npos)
                throw Bad{"comment without end"};
            i += 2;
        } else if (c == '"') {
            std::string s;
            for (++i;; ++i) {
                if (i >= t.size() || t[i] == '\n' || t[i] == '\r')
                    throw Bad{"string without end: \"" + s};
                if (t[i] == '"')
                    break;
                if (t[i] == '\\') {
                    if (++i >= t.size())
                        throw Bad{"string without end"};
                    switch (t[i]) {
                        case 'n': s += '\n'; break;
                        case 't': s += '\t'; break;
                        case 'r': s += '\r'; break;
                        case 'b': s += '\b'; break;
                        case 'f': s += '\f'; break;
                        case '"': s += '"'; break;
                        case '\'': s += '\''; break;
                        case '\\': s += '\\'; break;
                        default: throw Bad{std::string("illegal escape \\") + t[i]};
                    }
                } else
                    s += t[i];
            }
            ++i;
            r.push_back({'s', s});
        } else if (isdigit((unsigned char)c)) {
            size_t j = i;
            while (j < t.size() && (isdigit((unsigned char)t[j]) || t[j] == '.'))
                ++j;
            if (j < t.size() && (t[j] == 'e' || t[j] == 'E')) {
                ++j;
                if (j < t.size() && (t[j] == '+' || t[j] == '-'))
                    ++j;
                while (j < t.size() && isdigit((unsigned char)t[j]))
                    ++j;
            }
            std::string n = t.substr(i, j - i);
            if (j < t.size() && id(t[j]))
                throw Bad{"bad number " + n + t[j]};
            if (std::count(n.begin(), n.end(), '.') > 1)
                throw Bad{"bad number " + n};
            r.push_back({'n', n});
            i = j;
        } else if (id(c)) {
            size_t j = i;
            while (j < t.size() && id(t[j]))
                ++j;
            r.push_back({'i', t.substr(i, j - i)});
            i = j;
        } else if (std::string(".,;()=-+").find(c) != std::string::npos) {
            r.push_back({'p', std::string(1, c)});
            ++i;
        } else
            throw Bad{std::string("unexpected character ") + c};
    }
    r.push_back({'e', ""});
    return r;
}

// ---------------------------------------------------------------- interpreter
struct Value {
    std::string kind;  // null, bool, number, string, term, tnorm|snorm (as norm), defuzzifier, activation, rule, variable name
    std::string text;  // strings, class of the object
    bool flag = false;
    double number = 0;
    bool integer = false;
    std::shared_ptr<fl::Term> term;
    std::shared_ptr<fl::Norm> norm;
    std::shared_ptr<fl::Defuzzifier> defuzzifier;
    std::shared_ptr<fl::Activation> activation;
    std::shared_ptr<fl::Rule> rule;
};
struct Java {
    std::vector<Token> t;
    size_t pos = 0;
    EngineP engine;
    std::string engineName;
    std::map<std::string, std::unique_ptr<fl::InputVariable>> inputs;
    std::map<std::string, std::unique_ptr<fl::OutputVariable>> outputs;
    std::map<std::string, std::unique_ptr<fl::RuleBlock>> blocks;
    std::set<std::string> declared;

    const Token& peek() { return t[pos]; }
    Token next() { return t[pos].kind == 'e' ? t[pos] : t[pos++]; }
    bool is(const std::string& p) { return peek().kind == 'p' && peek().text == p; }
    void expect(const std::string& p) {
        Token k = next();
        if (k.kind != 'p' || k.text != p)
            throw Bad{"expected " + p + " but found <" + k.text + ">"};
    }
    std::string ident() {
        Token k = next();
        if (k.kind != 'i')
            throw Bad{"expected an identifier but found <" + k.text + ">"};
        static const std::set<std::string> reserved = {"new", "null", "true", "false", "class", "if", "int", "double", "this"};
        if (reserved.count(k.text))
            throw Bad{"unexpected " + k.text};
        return k.text;
    }
    std::vector<Value> args() {
        std::vector<Value> r;
        expect("(");
        if (is(")")) {
            next();
            return r;
        }
        for (;;) {
            r.push_back(expr());
            if (is(",")) {
                next();
                continue;
            }
            expect(")");
            return r;
        }
    }
    static double num(const Value& v) {
        if (v.kind != "number")
            throw Bad{"a number is expected instead of a " + v.kind};
        return v.number;
    }
    static std::string txt(const Value& v) {
        if (v.kind != "string")
            throw Bad{"a text is expected instead of a " + v.kind};
        return v.text;
    }
    static bool flag(const Value& v) {
        if (v.kind != "bool")
            throw Bad{"a boolean is expected instead of a " + v.kind};
        return v.flag;
    }
    Value expr() {
        Value v;
        v.kind = "null";
        if (is("-") || is("+")) {
            bool neg = next().text == "-";
            v = expr();
            num(v);
            if (neg)
                v.number = -v.number;
            return v;
        }
        Token k = next();
        if (k.kind == 's') {
            v.kind = "string";
            v.text = k.text;
            return v;
        }
        if (k.kind == 'n') {
            v.kind = "number";
            v.number = strtod(k.text.c_str(), nullptr);
            v.integer = k.text.find_first_of(".eE") == std::string::npos;
            return v;
        }
        if (k.kind != 'i')
            throw Bad{"unexpected <" + k.text + ">"};
        if (k.text == "null")
            return v;
        if (k.text == "true" || k.text == "false") {
            v.kind = "bool";
            v.flag = k.text == "true";
            return v;
        }
        if (k.text == "new") {
            std::string cls = ident();
            return construct(cls, args());
        }
        if (is(".")) {
            next();
            std::string member = ident();
            if (k.text == "Double") {
                v.kind = "number";
                if (member == "NaN")
                    v.number = NAN;
                else if (member == "POSITIVE_INFINITY")
                    v.number = INFINITY;
                else if (member == "NEGATIVE_INFINITY")
                    v.number = -INFINITY;
                else
                    throw Bad{"unknown Double." + member};
                return v;
            }
            std::vector<Value> a = args();
            if (k.text == "Rule" && member == "parse") {
                if (a.size() != 2 || a[1].kind != "engine")
                    throw Bad{"arguments of Rule.parse"};
                v.kind = "rule";
                v.rule.reset(fl::Rule::parse(txt(a[0]), engine.get()));
                return v;
            }
            if (member == "create") {
                if (a.empty())
                    throw Bad{"arguments of create"};
                v.kind = "term";
                v.text = k.text;
                std::string name = txt(a[0]);
                if (k.text == "Discrete") {
                    size_t n = a.size() - 1;
                    std::vector<fl::Discrete::Pair> xy;
                    for (size_t i = 0; i + 1 < n; i += 2)
                        xy.push_back({num(a[1 + i]), num(a[2 + i])});
                    v.term.reset(new fl::Discrete(name, xy, n % 2 ? num(a[n]) : 1.0));
                } else if (k.text == "Function") {
                    if (a.size() != 3 || a[2].kind != "engine")
                        throw Bad{"arguments of Function.create"};
                    v.term.reset(fl::Function::create(name, txt(a[1]), engine.get()));
                } else if (k.text == "Linear") {
                    if (a.size() < 2 || a[1].kind != "engine")
                        throw Bad{"arguments of Linear.create"};
                    std::vector<fl::scalar> c;
                    for (size_t i = 2; i < a.size(); ++i)
                        c.push_back(num(a[i]));
                    v.term.reset(new fl::Linear(name, c, engine.get()));
                } else
                    throw Bad{"unknown " + k.text + ".create"};
                return v;
            }
            throw Bad{"unknown " + k.text + "." + member};
        }
        if (!engineName.empty() && k.text == engineName) {
            v.kind = "engine";
            return v;
        }
        if (!declared.count(k.text))
            throw Bad{"undeclared " + k.text};
        v.kind = "variable";
        v.text = k.text;
        return v;
    }
    Value construct(const std::string& cls, const std::vector<Value>& a) {
        Value v;
        v.text = cls;
        fl::FactoryManager* f = fl::FactoryManager::instance();
        auto has = [&](const std::vector<std::string>& names) { return std::find(names.begin(), names.end(), cls) != names.end(); };
        auto arity = [&](bool ok) {
            if (!ok)
                throw Bad{"arguments of new " + cls};
        };
        if (has(f->tnorm()->available())) {
            arity(a.empty());
            v.kind = "tnorm";
            v.norm.reset(f->tnorm()->constructObject(cls));
        } else if (has(f->snorm()->available())) {
            arity(a.empty());
            v.kind = "snorm";
            v.norm.reset(f->snorm()->constructObject(cls));
        } else if (has(f->defuzzifier()->available())) {
            v.kind = "defuzzifier";
            v.defuzzifier.reset(f->defuzzifier()->constructObject(cls));
            arity(a.size() <= 1);
            if (auto* i = dynamic_cast<fl::IntegralDefuzzifier*>(v.defuzzifier.get())) {
                if (a.size() == 1) {
                    arity(a[0].kind == "number" && a[0].integer);
                    i->setResolution((int)num(a[0]));
                }
            } else if (auto* w = dynamic_cast<fl::WeightedDefuzzifier*>(v.defuzzifier.get())) {
                if (a.size() == 1) {
                    std::string n = txt(a[0]);
                    arity(n == "Automatic" || n == "TakagiSugeno" || n == "Tsukamoto");
                    w->setType(n == "Automatic" ? fl::WeightedDefuzzifier::Automatic : n == "TakagiSugeno" ? fl::WeightedDefuzzifier::TakagiSugeno : fl::WeightedDefuzzifier::Tsukamoto);
                }
            }
        } else if (has(f->activation()->available())) {
            v.kind = "activation";
            if (cls == "General" || cls == "Proportional") {
                arity(a.empty());
                v.activation.reset(f->activation()->constructObject(cls));
            } else if (cls == "First" || cls == "Last") {
                arity(a.size() == 2 && a[0].integer);
                if (cls == "First")
                    v.activation.reset(new fl::First((int)num(a[0]), num(a[1])));
                else
                    v.activation.reset(new fl::Last((int)num(a[0]), num(a[1])));
            } else if (cls == "Highest" || cls == "Lowest") {
                arity(a.size() == 1 && a[0].integer);
                if (cls == "Highest")
                    v.activation.reset(new fl::Highest((int)num(a[0])));
                else
                    v.activation.reset(new fl::Lowest((int)num(a[0])));
            } else if (cls == "Threshold") {
                arity(a.size() == 2);
                v.activation.reset(new fl::Threshold(txt(a[0]), num(a[1])));
            } else
                throw Bad{"unknown activation " + cls};
        } else if (has(f->term()->available())) {
            v.kind = "term";
            static const std::map<std::string, size_t> params
                = {{"Arc", 2}, {"Bell", 3}, {"Binary", 2}, {"Concave", 2}, {"Constant", 1}, {"Cosine", 2}, {"Gaussian", 2}, {"GaussianProduct", 4}, {"PiShape", 4}, {"Ramp", 2}, {"Rectangle", 2},
                   {"SShape", 2}, {"SemiEllipse", 2}, {"Sigmoid", 2}, {"SigmoidDifference", 4}, {"SigmoidProduct", 4}, {"Spike", 2}, {"Trapezoid", 4}, {"Triangle", 3}, {"ZShape", 2}};
            auto it = params.find(cls);
            if (it == params.end())
                throw Bad{"new " + cls + " has no such constructor"};
            arity(a.size() == it->second + 1 || (a.size() == it->second + 2 && cls != "Constant"));
            model::Term m;
            m.cls = cls;
            m.name = txt(a[0]);
            for (size_t i = 0; i < it->second; ++i)
                m.p.push_back(num(a[1 + i]));
            m.height = a.size() == it->second + 2 ? num(a.back()) : 1.0;
            v.term.reset(build::term(m, engine.get()));
        } else
            throw Bad{"unknown class " + cls};
        return v;
    }
    void statement() {
        std::string a = ident();
        if (peek().kind == 'i') {  // declaration: Class name = new Class();
            std::string name = ident();
            if (declared.count(name))
                throw Bad{name + " is declared twice"};
            declared.insert(name);
            expect("=");
            Token k = next();
            if (k.text != "new")
                throw Bad{"expected new"};
            if (ident() != a)
                throw Bad{"declared " + a + " but constructed another class"};
            if (!args().empty())
                throw Bad{"arguments of new " + a};
            expect(";");
            if (a == "Engine") {
                if (engine)
                    throw Bad{"two engines"};
                engine.reset(new fl::Engine);
                engineName = name;
            } else if (a == "InputVariable")
                inputs[name].reset(new fl::InputVariable);
            else if (a == "OutputVariable")
                outputs[name].reset(new fl::OutputVariable);
            else if (a == "RuleBlock")
                blocks[name].reset(new fl::RuleBlock);
            else
                throw Bad{"unknown class " + a};
            return;
        }
        expect(".");
        std::string m = ident();
        if (!declared.count(a))
            throw Bad{a + " is not declared"};
        std::vector<Value> v = args();
        expect(";");
        auto arity = [&](size_t n) {
            if (v.size() != n)
                throw Bad{"arguments of " + a + "." + m};
        };
        auto ofKind = [&](const std::string& k) {
            arity(1);
            if (v[0].kind != k && v[0].kind != "null")
                throw Bad{a + "." + m + " of a " + v[0].kind};
        };
        if (a == engineName) {
            arity(1);
            if (m == "setName")
                engine->setName(txt(v[0]));
            else if (m == "setDescription")
                engine->setDescription(txt(v[0]));
            else if (m == "addInputVariable" && inputs[v[0].text])
                engine->addInputVariable(inputs[v[0].text].release());
            else if (m == "addOutputVariable" && outputs[v[0].text])
                engine->addOutputVariable(outputs[v[0].text].release());
            else if (m == "addRuleBlock" && blocks[v[0].text])
                engine->addRuleBlock(blocks[v[0].text].release());
            else
                throw Bad{"bad engine." + m};
            return;
        }
        fl::InputVariable* in = inputs.count(a) ? inputs[a].get() : nullptr;
        fl::OutputVariable* out = outputs.count(a) ? outputs[a].get() : nullptr;
        fl::RuleBlock* rb = blocks.count(a) ? blocks[a].get() : nullptr;
        fl::Variable* var = in ? (fl::Variable*)in : out;
        if (var) {
            if (m == "setName") {
                arity(1);
                return var->setName(txt(v[0]));
            }
            if (m == "setDescription") {
                arity(1);
                return var->setDescription(txt(v[0]));
            }
            if (m == "setEnabled") {
                arity(1);
                return var->setEnabled(flag(v[0]));
            }
            if (m == "setRange") {
                arity(2);
                return var->setRange(num(v[0]), num(v[1]));
            }
            if (m == "setLockValueInRange") {
                arity(1);
                return var->setLockValueInRange(flag(v[0]));
            }
            if (m == "addTerm") {
                ofKind("term");
                if (!v[0].term)
                    throw Bad{"null term"};
                return var->addTerm(v[0].term->clone());
            }
        }
        if (out) {
            if (m == "setAggregation") {
                ofKind("snorm");
                return out->setAggregation(v[0].norm ? dynamic_cast<fl::SNorm*>(v[0].norm->clone()) : nullptr);
            }
            if (m == "setDefuzzifier") {
                ofKind("defuzzifier");
                return out->setDefuzzifier(v[0].defuzzifier ? v[0].defuzzifier->clone() : nullptr);
            }
            if (m == "setDefaultValue") {
                arity(1);
                return out->setDefaultValue(num(v[0]));
            }
            if (m == "setLockPreviousValue") {
                arity(1);
                return out->setLockPreviousValue(flag(v[0]));
            }
        }
        if (rb) {
            if (m == "setName") {
                arity(1);
                return rb->setName(txt(v[0]));
            }
            if (m == "setDescription") {
                arity(1);
                return rb->setDescription(txt(v[0]));
            }
            if (m == "setEnabled") {
                arity(1);
                return rb->setEnabled(flag(v[0]));
            }
            if (m == "setConjunction") {
                ofKind("tnorm");
                return rb->setConjunction(v[0].norm ? dynamic_cast<fl::TNorm*>(v[0].norm->clone()) : nullptr);
            }
            if (m == "setDisjunction") {
                ofKind("snorm");
                return rb->setDisjunction(v[0].norm ? dynamic_cast<fl::SNorm*>(v[0].norm->clone()) : nullptr);
            }
            if (m == "setImplication") {
                ofKind("tnorm");
                return rb->setImplication(v[0].norm ? dynamic_cast<fl::TNorm*>(v[0].norm->clone()) : nullptr);
            }
            if (m == "setActivation") {
                ofKind("activation");
                return rb->setActivation(v[0].activation ? v[0].activation->clone() : nullptr);
            }
            if (m == "addRule") {
                ofKind("rule");
                if (!v[0].rule)
                    throw Bad{"null rule"};
                return rb->addRule(fl::Rule::parse(v[0].rule->getText(), engine.get()));
            }
        }
        throw Bad{"unknown method " + m + " of " + a};
    }
    EngineP run(const std::string& code) {
        t = lex(code);
        while (peek().kind != 'e')
            statement();
        for (auto& i : inputs)
            if (i.second)
                throw Bad{"input " + i.first + " is not added"};
        for (auto& i : outputs)
            if (i.second)
                throw Bad{"output " + i.first + " is not added"};
        for (auto& i : blocks)
            if (i.second)
                throw Bad{"block " + i.first + " is not added"};
        if (!engine)
            throw Bad{"no engine"};
        return std::move(engine);
    }
};

static void engines(Case& c) {
    Src& s = c.src;
    int decimals = s.chance(1, 3) ? s.range(3, 9) : 3;
    Decimals d(decimals);
    model::GenOptions o;
    o.tall = true;
    o.descriptions = true;
    o.wildDescriptions = true;
    o.randomText = s.chance(1, 4);
    o.hedgesAnywhere = true;
    o.emptyTermsAllowed = true;
    o.maxResolution = 60;
    model::Engine e = model::genEngine(s, o);
    bool names = s.coin();
    std::set<std::string> used = {"engine"};
    for (auto* vs : {&e.inputs, &e.outputs})
        for (auto& v : *vs) {
            if (v.name == "engine")
                c.discard();
            used.insert(v.name);
        }
    for (auto& b : e.blocks) {
        for (auto& r : b.rules)
            r.enabled = true;
        if (names && !b.name.empty()) {
            while (used.count(b.name))
                b.name += "_";
            used.insert(b.name);
        }
    }
    if (s.chance(1, 6)) {
        for (auto& v : e.outputs) {
            if (s.coin()) v.aggregation = "";
            if (s.coin()) v.defuzzifier = "";
            if (s.chance(1, 4)) {
                v.min = -model::Inf;
                v.max = model::Inf;
            }
        }
        for (auto& b : e.blocks) {
            if (s.coin()) b.conjunction = "";
            if (s.coin()) b.disjunction = "";
            if (s.coin()) b.implication = "";
        }
    }
    if (s.chance(1, 6)) {
        e.name = s.oneOf(std::vector<std::string>{"", "an \"engine\"", "back\\slash", "a\nb", "t\tb"});
        if (!names && !e.blocks.empty())
            e.blocks[0].name = s.oneOf(std::vector<std::string>{"", "a \"block\"", "with spaces", "back\\slash"});
        if (!names && s.coin() && e.blocks.empty())  // names of terms are only restricted by rules
            for (auto& v : e.inputs)
                for (auto& t : v.terms)
                    t.name += s.oneOf(std::vector<std::string>{" \"x\"", "\\n", " y"});
    }
    EngineP a = build::engine(e);
    fl::JavaExporter x(names);
    c.check(x.isUsingVariableNames() == names, "settings", "settings of the exporter");
    if (s.coin()) {
        x.setUsingVariableNames(!names);
        x.setUsingVariableNames(names);
    }
    std::string code = x.toString(a.get());
    c.note([&] { return code; });
    auto in = build::genInputs(s, e, 3, true);
    if (s.coin()) {
        build::run(*a, in);
        c.check(x.toString(a.get()) == code, "values", "the code depends on the values of the engine");
        a->restart();
    }
    EngineP b;
    try {
        Java j;
        b = j.run(code);
    } catch (Bad& bad) {
        c.fail("java", bad.what);
    } catch (fl::Exception& ex) {
        c.fail("rejected", std::string("the code throws ") + ex.what());
    }
    std::string ta = fl::FllExporter().toString(a.get()), tb = fl::FllExporter().toString(b.get());
    c.checkf(ta == tb, "text", [&] { return "the code builds another engine:\n" + tb + "\ninstead of\n" + ta; });
    auto ra = build::run(*a, in), rb = build::run(*b, in);
    std::string diff = build::diff(ra, rb, 1e-12, 1e-12);
    c.checkf(diff.empty(), "behaviour", [&] { return "the engine built by the code behaves differently: " + diff; });
    bool rules = false;
    for (auto& bl : e.blocks)
        rules = rules || !bl.rules.empty();
    c.nontrivial(rules);
    c.label(names ? "with variable names" : "without variable names");
    c.label(ra.error.empty() ? "processed" : "processing throws");
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P21", {
        {"engines", engines, 24000, 800000, "the engine has rules"},
    });
}
