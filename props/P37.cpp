// P37: everything that is created is released.
// Histories are written down first, and then run repeatedly while live allocations are counted.
#include "build.h"
#include "live.h"

#include <fstream>
#include <unistd.h>
using namespace pbt;

static model::GenOptions options() {
    model::GenOptions o;
    o.maxInputs = 2;
    o.maxResolution = 10;
    o.maxRules = 3;
    o.maxTerms = 3;
    o.hedgesAnywhere = true;
    return o;
}

template <class T>
static void drop(T* t) {
    delete t;
}

// ------------------------------------------------------------------------------------------------ histories of engines
struct Operation {
    int what, slot, a, b;
};
struct Outcome {
    int failed = 0, copies = 0, done = 0;
};
static const char* const NAMES[] = {"build", "fll", "copy", "assign", "move", "move-assign", "process", "ready", "configure", "to fcl", "to fis", "to fld", "code", "restart",
                                    "unload", "load", "reload", "defuzzifier", "norms", "activation", "add term", "insert term", "remove term", "add variable", "remove variable",
                                    "add block", "remove block", "add rule", "remove rule", "bad rule", "copy variable", "copy block", "copy rule", "benchmark", "replace term", "replace variable",
                                    "replace block", "antecedent", "fuzzify", "destroy", "R", "term", "sort", "formula"};
static const int OPERATIONS = sizeof NAMES / sizeof *NAMES;
static const int SLOTS = 3;

static const char* const RULES[] = {"if a is a then b is a", "if a is", "then", "", "if a is a and (b is b then b is c", "if a is a then b is", "if a is a then zz is a",
                                    "if a is a then b is a with x", "if a is very very not a and a is any then b is very a", "if a is a or then b is a", "if zz is a then b is a",
                                    "if a is a then b is zz", "if a is a then b is a and", "if a is a b then b is a", "if (a is a) then b is a", "if a is very then b is a", "if a is a then b is a with 0.5"};
static const char* const FORMULAS[] = {"1+2*3", "sin(", "x+", "max(1,2", "x y", ")", "a+b", "", "sin(x)*(2-x)", "1+", "pow(1)", "~", "2 3 +", "f(1)", "(1", "not x", "x^2^x", "min(1,max(2,x))"};
static const char* const TERMS[] = {"Triangle", "Trapezoid", "Discrete", "Function", "Linear", "Constant", "Gaussian", "Bell", "Nope", "", "Ramp", "Aggregated", "Binary"};
static const char* const PARAMETERS[] = {"0 1 2", "", "1", "a b c", "0 0 1 1", "0 1 2 3", "0.5 0.25 1", "x+", "1 2 3 4 5 6 7", "nan inf 0", "-inf 0"};

static void refresh(fl::Engine& e) {
    for (auto v : e.outputVariables())
        v->clear();
    for (auto b : e.ruleBlocks()) {
        for (auto r : b->rules())
            r->unload();
        try {
            b->loadRules(&e);
        } catch (fl::Exception&) {
        }
    }
    for (auto v : e.variables())
        for (auto t : v->terms())
            try {
                t->updateReference(&e);
            } catch (fl::Exception&) {
            }
}
static fl::Term* someTerm(int a, int b, fl::Engine* e) {
    std::unique_ptr<fl::Term> t(fl::FactoryManager::instance()->term()->constructObject(TERMS[a % 13]));
    if (!t)
        return new fl::Constant("none", 1);
    t->setName(strf("t%d", b));
    t->updateReference(e);
    t->configure(PARAMETERS[b % 11]);
    return t.release();
}

static void perform(const Operation& o, const std::vector<model::Engine>& specs, const std::vector<std::vector<double>>& rows, std::vector<EngineP>& slots) {
    EngineP& e = slots[o.slot];
    if (!e && o.what > 1)
        e = EngineP(new fl::Engine("e"));
    const model::Engine& spec = specs[o.a % specs.size()];
    EngineP& other = slots[o.a % SLOTS];
    auto input = [&]() -> fl::InputVariable* { return e->numberOfInputVariables() ? e->getInputVariable(o.a % e->numberOfInputVariables()) : nullptr; };
    auto output = [&]() -> fl::OutputVariable* { return e->numberOfOutputVariables() ? e->getOutputVariable(o.a % e->numberOfOutputVariables()) : nullptr; };
    auto variable = [&]() -> fl::Variable* {
        auto all = e->variables();
        return all.empty() ? nullptr : all[o.a % all.size()];
    };
    auto block = [&]() -> fl::RuleBlock* { return e->numberOfRuleBlocks() ? e->getRuleBlock(o.a % e->numberOfRuleBlocks()) : nullptr; };
    switch (o.what) {
        case 0: e = build::engine(spec); break;
        case 1: e.reset(fl::FllImporter().fromString(build::fll(spec))); break;
        case 2: other.reset(e->clone()); break;
        case 3:
            if (!other)
                other.reset(new fl::Engine);
            *other = *e;
            break;
        case 4: {
            EngineP m(new fl::Engine(std::move(*e)));
            e = std::move(m);
            break;
        }
        case 5:
            if (other && other != e)
                *other = std::move(*e);
            break;
        case 6:
            for (auto& r : rows) {
                for (size_t i = 0; i < e->numberOfInputVariables(); ++i)
                    e->getInputVariable(i)->setValue(r.empty() ? 0.5 : r[i % r.size()]);
                e->process();
            }
            break;
        case 7: {
            std::string s, t, u;
            e->isReady(&s);
            e->type(&t, &u);
            break;
        }
        case 8: {
            static const char* const names[][4] = {{"Minimum", "AlgebraicProduct", "", "Nope"}, {"Maximum", "AlgebraicSum", "", "Minimum"},
                                                   {"Minimum", "BoundedDifference", "", "Maximum"}, {"Maximum", "UnboundedSum", "", "Nope"},
                                                   {"Centroid", "WeightedAverage", "", "Maximum"}, {"General", "First", "", "Nope"}};
            int bad = o.b % 12;  // at most one of the names is wrong
            auto name = [&](int i) { return names[i][bad == i ? 3 : (o.a + i) % 3]; };
            e->configure(name(0), name(1), name(2), name(3), name(4), name(5));
            break;
        }
        case 9: {
            std::string t = fl::FclExporter().toString(e.get());
            other.reset(fl::FclImporter().fromString(t));
            break;
        }
        case 10: {
            std::string t = fl::FisExporter().toString(e.get());
            other.reset(fl::FisImporter().fromString(t));
            break;
        }
        case 11: fl::FldExporter().toString(e.get(), 2 + o.a % 9, o.b % 2 ? fl::FldExporter::AllVariables : fl::FldExporter::EachVariable); break;
        case 12:
            if (o.b % 2)
                fl::CppExporter(o.a % 2).toString(e.get());
            else
                fl::JavaExporter(o.a % 2).toString(e.get());
            break;
        case 13: e->restart(); break;
        case 14:
            if (block())
                block()->unloadRules();
            break;
        case 15:
            if (block())
                block()->loadRules(e.get());
            break;
        case 16:
            if (block())
                block()->reloadRules(e.get());
            break;
        case 17:
            if (output())
                output()->setDefuzzifier(o.b % 5 == 0 ? nullptr : o.b % 5 == 1 ? (fl::Defuzzifier*)new fl::WeightedSum : o.b % 5 == 2 ? (fl::Defuzzifier*)new fl::Bisector(9) : output()->getDefuzzifier() && o.b % 2 ? output()->getDefuzzifier()->clone() : new fl::Centroid(7));
            if (output())
                output()->setAggregation(o.b % 3 ? new fl::Maximum : nullptr);
            break;
        case 18:
            if (block()) {
                for (auto v : e->outputVariables())
                    v->clear();  // activated terms refer to the implication
                if (o.b % 4 == 0)
                    block()->setConjunction(o.b % 3 ? new fl::Minimum : nullptr);
                if (o.b % 4 == 1)
                    block()->setDisjunction(o.b % 3 ? new fl::SNormFunction("a+b-a*b") : nullptr);
                if (o.b % 4 > 1)
                    block()->setImplication(o.b % 3 ? (fl::TNorm*)new fl::TNormFunction("a*b") : new fl::Minimum);
            }
            break;
        case 19:
            if (block())
                block()->setActivation(o.b % 3 == 0 ? nullptr : o.b % 3 == 1 ? (fl::Activation*)new fl::Highest(2) : fl::FactoryManager::instance()->activation()->constructObject("Threshold"));
            break;
        case 20:
            if (variable())
                variable()->addTerm(someTerm(o.a, o.b, e.get()));
            break;
        case 21:
            if (variable())
                variable()->insertTerm(someTerm(o.b, o.a, e.get()), o.b % (variable()->numberOfTerms() + 1));
            break;
        case 22:
            if (variable() && variable()->numberOfTerms()) {
                std::unique_ptr<fl::Term> t(variable()->removeTerm(o.b % variable()->numberOfTerms()));
                refresh(*e);
            }
            break;
        case 23:
            if (o.b % 2)
                e->addInputVariable(input() ? input()->clone() : new fl::InputVariable("v"));
            else
                e->insertOutputVariable(output() ? output()->clone() : new fl::OutputVariable("w"), o.a % (e->numberOfOutputVariables() + 1));
            break;
        case 24:
            if (o.b % 2) {
                if (input()) {
                    std::unique_ptr<fl::InputVariable> v(o.a % 3 ? e->removeInputVariable(o.a % e->numberOfInputVariables()) : e->removeInputVariable(input()->getName()));
                    refresh(*e);
                }
            } else if (output()) {
                for (auto b : e->ruleBlocks())
                    b->unloadRules();
                std::unique_ptr<fl::OutputVariable> v(o.a % 3 ? e->removeOutputVariable(o.a % e->numberOfOutputVariables()) : e->removeOutputVariable("no such variable"));
                refresh(*e);
            }
            break;
        case 25: e->addRuleBlock(block() ? block()->clone() : new fl::RuleBlock("b")); break;
        case 26:
            if (block()) {
                for (auto v : e->outputVariables())
                    v->clear();
                std::unique_ptr<fl::RuleBlock> b(o.b % 3 ? e->removeRuleBlock(o.a % e->numberOfRuleBlocks()) : e->removeRuleBlock("no such block"));
            }
            break;
        case 27:
            if (block())
                block()->addRule(fl::Rule::parse(RULES[o.b % 17], e.get()));
            break;
        case 28:
            if (block() && block()->numberOfRules()) {
                for (auto v : e->outputVariables())
                    v->clear();
                std::unique_ptr<fl::Rule> r(block()->removeRule(o.b % block()->numberOfRules()));
            }
            break;
        case 29:
            if (block()) {
                std::unique_ptr<fl::Rule> r(new fl::Rule);
                r->setText(RULES[o.b % 17]);
                block()->insertRule(r.get(), 0);
                fl::Rule* kept = r.release();
                kept->load(e.get());
            }
            break;
        case 30:
            if (variable()) {
                std::unique_ptr<fl::Variable> v(variable()->clone());
                if (input()) {
                    fl::InputVariable a(*input()), b;
                    b = a;
                    a = std::move(b);
                    fl::InputVariable d(std::move(a)), f(d);
                    d = f;  // over its own terms
                    f = std::move(d);
                }
                if (output()) {
                    fl::OutputVariable a(*output()), b;
                    b = a;
                    a = std::move(b);
                    fl::OutputVariable d(std::move(a)), f(d);
                    a = d;
                    d = f;  // over its own parts
                    f = std::move(d);
                }
            }
            break;
        case 31:
            if (block()) {
                fl::RuleBlock a(*block()), b;
                b = a;
                a = std::move(b);
                fl::RuleBlock d(std::move(a));
                b = d;
                d = b;  // over its own parts
                d.loadRules(e.get());
                d = std::move(b);
                d.loadRules(e.get());
            }
            break;
        case 32:
            if (block() && block()->numberOfRules()) {
                fl::Rule* r = block()->getRule(o.b % block()->numberOfRules());
                fl::Rule a(*r), b;
                b = a;
                b.load(e.get());
                a = std::move(b);
                fl::Rule d(std::move(a));
                b = d;
                d.load(r->getText(), e.get());
                d = b;  // over what was loaded
                d.load(r->getText(), e.get());
                d = std::move(b);
                d.load(RULES[o.b % 17], e.get());
            }
            break;
        case 33: {
            std::ostringstream data;
            fl::FldExporter().write(e.get(), data, 3, fl::FldExporter::EachVariable);
            std::istringstream in(o.b % 3 ? data.str() : data.str() + "1 x\n");
            fl::Benchmark m("b", e.get());
            m.prepare(in);
            m.run(2);
            m.results();
            fl::Benchmark n(m);
            n = m;
            n.reset();
            break;
        }
        case 34:
            if (variable() && variable()->numberOfTerms()) {
                std::unique_ptr<fl::Term> t(someTerm(o.b, o.a, e.get()));
                fl::Term*& at = variable()->terms()[o.b % variable()->numberOfTerms()];
                std::unique_ptr<fl::Term> old(at);
                at = t.release();
                refresh(*e);
            }
            break;
        case 35:
            if (input()) {
                std::unique_ptr<fl::InputVariable> v(input()->clone());
                std::unique_ptr<fl::InputVariable> old(e->setInputVariable(v.get(), o.a % e->numberOfInputVariables()));
                v.release();
                refresh(*e);
            }
            break;
        case 36:
            if (block()) {
                std::unique_ptr<fl::RuleBlock> v(block()->clone());
                for (auto x : e->outputVariables())
                    x->clear();
                std::unique_ptr<fl::RuleBlock> old(e->setRuleBlock(v.get(), o.a % e->numberOfRuleBlocks()));
                v.release();
            }
            break;
        case 37: {
            fl::Antecedent a;
            fl::Consequent b;
            std::string text = RULES[o.b % 17], t = " then ";
            size_t at = text.find(t);
            try {
                a.load(text.size() > 3 ? text.substr(3, at == std::string::npos ? at : at - 3) : text, e.get());
            } catch (fl::Exception&) {
            }
            b.load(at == std::string::npos ? text : text.substr(at + t.size()), e.get());
            break;
        }
        case 38:
            if (variable()) {
                variable()->fuzzify(o.b);
                variable()->highestMembership(o.b);
                variable()->activations(o.b * 0.1);
                variable()->maxActivations(o.b * 0.1);
            }
            break;
        case 39: e.reset(); break;
        case 40:
            if (e->numberOfInputVariables())
                fl::RScriptExporter().toString(e.get(), input(), e->getInputVariable(o.b % e->numberOfInputVariables()), 4 + o.b, fl::FldExporter::AllVariables, e->outputVariables());
            break;
        case 41:
            if (variable())
                for (auto t : variable()->terms()) {
                    std::unique_ptr<fl::Term> k(t->clone());
                    std::unique_ptr<fl::Discrete> d(fl::Discrete::discretize(t, 0, 1, 2 + o.b % 5));
                    k->configure(PARAMETERS[o.b % 11]);
                }
            break;
        case 42:
            if (variable())
                variable()->sort();
            break;
        case 43: {
            fl::Function f("f", FORMULAS[o.b % 18], e.get());
            f.load();
            fl::Function g(f), h;
            h = g;
            h.load(FORMULAS[o.a % 18]);
            break;
        }
    }
}

static void histories(Case& c) {
    Src& s = c.src;
    std::vector<model::Engine> specs;
    for (int k = s.range(1, 2); k > 0; --k)
        specs.push_back(model::genEngine(s, options()));
    std::vector<std::vector<double>> rows = build::genInputs(s, specs[0], s.range(1, 2), true);
    std::vector<Operation> operations;
    operations.push_back(Operation{(int)s.u(2), 0, 0, 0});
    for (int k = s.range(1, 14); k > 0; --k)
        operations.push_back(Operation{(int)s.u(OPERATIONS), (int)(s.chance(2, 3) ? 0 : s.u(SLOTS)), (int)s.u(12), (int)s.u(36)});
    c.note([&] {
        std::string t;
        for (auto& x : specs)
            t += build::fll(x) + "\n";
        for (auto& o : operations)
            t += strf("%s(slot %d, %d, %d) ", NAMES[o.what], o.slot, o.a, o.b);
        return t;
    });
    int failures = 0, copies = 0;
    std::vector<bool> failed(operations.size());
    long left = live::leftBy([&] {
        std::vector<EngineP> slots(SLOTS);
        failures = copies = 0;
        for (size_t i = 0; i < operations.size(); ++i) {
            failed[i] = false;
            try {
                perform(operations[i], specs, rows, slots);
                copies += operations[i].what >= 2 && operations[i].what <= 5;
            } catch (fl::Exception&) {
                ++failures;
                failed[i] = true;
            } catch (std::exception&) {
                ++failures;
                failed[i] = true;
            }
        }
    });
    c.check(left == 0, "leak", strf("%ld allocations are left", left));
    for (size_t i = 0; i < operations.size(); ++i)
        c.label(std::string(NAMES[operations[i].what]) + (failed[i] ? " failed" : ""));
    c.nontrivial(failures || copies);
}

// ------------------------------------------------------------------------------------------------ texts
static std::string damaged(Src& s, std::string t, int& damages) {
    static const std::vector<std::string> pieces = {"x", "\n", ":", " ", "=", ";", "nan", "-", "(", ")", "'", "[", "]", ",", "END_", "0", "term: x Function x+", "none", "1e999", "if ", "then", "is not"};
    for (damages = s.range(0, 3); damages > 0; --damages) {
        size_t at = s.u((uint32_t)t.size() + 1), n = s.u(std::min<uint32_t>(12, (uint32_t)(t.size() - at) + 1));
        switch (s.u(4)) {
            case 0: t = t.substr(0, at) + t.substr(at + n); break;
            case 1: t.insert(at, s.oneOf(pieces)); break;
            case 2: t = t.substr(0, at) + s.oneOf(pieces) + t.substr(at + n); break;
            default: {  // a line is repeated or dropped
                size_t begin = t.rfind('\n', at ? at - 1 : 0), end = t.find('\n', at);
                begin = begin == std::string::npos ? 0 : begin + 1;
                end = end == std::string::npos ? t.size() : end + 1;
                if (end < begin)
                    end = begin;
                std::string line = t.substr(begin, end - begin);
                t = s.coin() ? t.substr(0, begin) + t.substr(end) : t.substr(0, end) + line + t.substr(end);
            }
        }
    }
    return t;
}

static void texts(Case& c) {
    Src& s = c.src;
    model::Engine spec = model::genEngine(s, options());
    int format = s.u(3), damages;
    std::string text = build::fll(spec);
    try {
        if (format) {
            EngineP e(build::engine(spec));
            text = format == 1 ? fl::FclExporter().toString(e.get()) : fl::FisExporter().toString(e.get());
        }
    } catch (fl::Exception&) {
        c.discard();
    }
    text = damaged(s, text, damages);
    c.note([&] { return text; });
    bool failed = false;
    long left = live::leftBy([&] {
        failed = false;
        try {
            EngineP e(format == 0 ? fl::FllImporter().fromString(text) : format == 1 ? fl::FclImporter().fromString(text) : fl::FisImporter().fromString(text));
            EngineP copy(e->clone());
            copy->isReady();
        } catch (fl::Exception&) {
            failed = true;
        } catch (std::exception&) {
            failed = true;
        }
    });
    c.check(left == 0, "leak", strf("%ld allocations are left", left));
    c.nontrivial();
    c.label(std::string(format == 0 ? "fll" : format == 1 ? "fcl" : "fis") + (failed ? " rejected" : ""));
}

// ------------------------------------------------------------------------------------------------ single components
static std::string words(Src& s, const std::vector<std::string>& pool, int max) {
    std::string t;
    for (int k = s.range(0, max); k > 0; --k)
        t += s.oneOf(pool) + (s.chance(1, 12) ? "" : " ");
    return t;
}

static void components(Case& c) {
    Src& s = c.src;
    static const std::vector<std::string> symbols = {"x", "1", "2.5", "+", "-", "*", "/", "^", "(", ")", ",", "sin", "max", "pow", "and", "or", "!", "~", "rand", "y", "%", "sin(x)", "max(1,2)"};
    static const std::vector<std::string> ruleWords = {"if", "then", "a", "b", "is", "very", "not", "any", "and", "or", "(", ")", "with", "1", "0.5", "T", "U", "a is T", "b is U", "if a is T then b is U", "somewhat"};
    int kind = s.u(6), a = s.u(40), b = s.u(40);
    std::string text = kind == 0 ? words(s, symbols, 9) : kind == 1 ? words(s, ruleWords, 10) : words(s, {"0", "1", "2", "0.5", "nan", "inf", "x", "-1", "+", "a"}, 7);
    std::string second = kind == 0 ? words(s, symbols, 5) : words(s, ruleWords, 8);
    c.note([&] { return strf("kind %d, %d, %d: ", kind, a, b) + text + "\n" + second; });
    bool failed = false, thrown = false;
    long left = live::leftBy([&] {
        thrown = false;
        auto attempt = [&](const std::function<void()>& f) {
            try {
                f();
            } catch (fl::Exception&) {
                thrown = true;
            } catch (std::exception&) {
                thrown = true;
            }
        };
        switch (kind) {
            case 0: {  // formulas, on their own and in norms, hedges and terms
                attempt([&] {
                    fl::Function f("f");
                    attempt([&] { f.load(text); });
                    attempt([&] { f.load(second); });
                    fl::Function g(f);
                    g = f;
                    attempt([&] { g.membership(0.5); });
                    fl::Function h(std::move(g));
                    f = std::move(h);
                    f.unload();
                });
                attempt([&] { drop(fl::Function::create("f", text, nullptr)); });
                attempt([&] { drop(fl::Function().parse(text)); });
                attempt([&] { fl::Function("f", text, nullptr).toPostfix(text); });
                attempt([&] {
                    std::unique_ptr<fl::HedgeFunction> h(new fl::HedgeFunction(text));
                    std::unique_ptr<fl::Hedge> k(h->clone());
                    k->hedge(0.5);
                });
                attempt([&] {
                    fl::TNormFunction n(text);
                    std::unique_ptr<fl::TNorm> k(n.clone());
                    k->compute(0.5, 0.25);
                });
                attempt([&] {
                    fl::SNormFunction n(text);
                    std::unique_ptr<fl::SNorm> k(n.clone());
                    k->compute(0.5, 0.25);
                });
                break;
            }
            case 1: {  // rules
                fl::Engine e("e");
                e.addInputVariable(new fl::InputVariable("a", 0, 1));
                e.addOutputVariable(new fl::OutputVariable("b", 0, 1));
                e.getInputVariable(0)->addTerm(new fl::Triangle("T", 0, 0.5, 1));
                e.getOutputVariable(0)->addTerm(new fl::Triangle("U", 0, 0.5, 1));
                e.addRuleBlock(new fl::RuleBlock);
                attempt([&] { e.getRuleBlock(0)->addRule(fl::Rule::parse(text, &e)); });
                std::unique_ptr<fl::Rule> r(new fl::Rule);
                attempt([&] { r->load(text, &e); });
                attempt([&] { r->load(second, &e); });
                fl::Rule copy(*r);
                attempt([&] { copy.load(&e); });
                r->setText(second);
                e.getRuleBlock(0)->addRule(r.release());
                attempt([&] { e.getRuleBlock(0)->loadRules(&e); });
                attempt([&] { e.getRuleBlock(0)->reloadRules(&e); });
                attempt([&] {
                    fl::Antecedent x;
                    attempt([&] { x.load(text, &e); });
                    x.load(second, &e);
                });
                attempt([&] {
                    fl::Consequent x;
                    attempt([&] { x.load(text, &e); });
                    x.load(second, &e);
                });
                attempt([&] { e.process(); });
                break;
            }
            case 2: {  // parameters of terms and activations
                for (auto& n : fl::FactoryManager::instance()->term()->available())
                    attempt([&] {
                        std::unique_ptr<fl::Term> t(fl::FactoryManager::instance()->term()->constructObject(n));
                        if (!t)
                            return;
                        attempt([&] { t->configure(text); });
                        std::unique_ptr<fl::Term> k(t->clone());
                        k->toString();
                        attempt([&] { k->membership(0.5); });
                    });
                for (auto& n : fl::FactoryManager::instance()->activation()->available())
                    attempt([&] {
                        std::unique_ptr<fl::Activation> t(fl::FactoryManager::instance()->activation()->constructObject(n));
                        if (!t)
                            return;
                        std::unique_ptr<fl::Activation> k(t->clone());
                        k->configure(text);
                    });
                attempt([&] { drop(fl::Discrete::create("d", 5, 0.0, 0.5, 1.0, 1.0, 0.5)); });
                attempt([&] { drop(fl::Linear::create("d", (fl::Engine*)nullptr, 0.0)); });
                break;
            }
            case 3: {  // factories
                fl::FactoryManager* m = fl::FactoryManager::instance();
                std::unique_ptr<fl::FactoryManager> k(m->clone());
                auto use = [&](auto* f) {
                    std::unique_ptr<typename std::remove_reference<decltype(*f)>::type> g(new typename std::remove_reference<decltype(*f)>::type(*f));
                    auto names = g->available();
                    if (!names.empty())
                        attempt([&] { drop(g->constructObject(names[a % names.size()])); });
                    attempt([&] { drop(g->constructObject(text)); });
                    g->deregisterConstructor(names[b % names.size()]);
                    *g = *f;
                    typename std::remove_reference<decltype(*f)>::type h(std::move(*g));
                };
                use(m->term());
                use(m->hedge());
                use(m->tnorm());
                use(m->snorm());
                use(m->activation());
                use(m->defuzzifier());
                fl::FunctionFactory f(*m->function()), g;
                f.registerObject("p", new fl::Function::Element("p", "p", fl::Function::Element::Function));
                f.registerObject(b % 2 ? "p" : "sin", new fl::Function::Element("p", "p", fl::Function::Element::Operator));
                f.deregisterObject(a % 2 ? "p" : "nothing");
                attempt([&] { drop(f.cloneObject(a % 3 ? "sin" : "nothing")); });
                g = f;
                g = f;
                f = std::move(g);
                fl::FunctionFactory h(std::move(f));
                f = h;
                std::unique_ptr<fl::CloningFactory<fl::Function::Element*>> copy(f.clone());
                k->setFunction(b % 3 ? new fl::FunctionFactory : nullptr);
                k->setTerm(b % 4 ? new fl::TermFactory : nullptr);
                std::unique_ptr<fl::FactoryManager> q(k->clone());
                *q = *m;
                *k = *q;
                attempt([&] { drop(m->defuzzifier()->constructDefuzzifier(a % 2 ? "Centroid" : "Nope", b, fl::WeightedDefuzzifier::Automatic)); });
                attempt([&] { drop(m->defuzzifier()->constructDefuzzifier(a % 2 ? "WeightedSum" : text, b, fl::WeightedDefuzzifier::Tsukamoto)); });
                break;
            }
            case 4: {  // fuzzy outputs
                fl::Triangle x("x", 0, 0.5, 1);
                fl::Rectangle y("y", 0, 1);
                fl::Minimum n;
                fl::Aggregated g("g", 0, 1, a % 2 ? new fl::Maximum : nullptr);
                for (int i = 0; i < a % 6; ++i)
                    g.addTerm(i % 2 ? (fl::Term*)&x : &y, i * 0.1, b % 2 ? &n : nullptr);
                fl::Aggregated h(g), k;
                k = h;
                if (k.numberOfTerms())
                    k.removeTerm(b % k.numberOfTerms());
                h.setAggregation(b % 3 ? new fl::AlgebraicSum : nullptr);
                attempt([&] { h.membership(0.5); });
                h = std::move(k);
                h = g;
                std::unique_ptr<fl::Aggregated> q(g.clone());
                q->clear();
                attempt([&] { g.groupedTerms(); });
                attempt([&] { g.toString() + g.parameters(); });
                g.maximallyActivatedTerms();
                g.highestActivatedTerm();
                attempt([&] { fl::WeightedAverage().defuzzify(&g, 0, 1); });
                attempt([&] { fl::WeightedSum("Tsukamoto").defuzzify(&g, 0, 1); });
                attempt([&] { fl::Centroid(5).defuzzify(&g, 0, 1); });
                fl::Activated act(&x, 0.5, b % 2 ? &n : nullptr), bct(act);
                bct = act;
                attempt([&] { bct.membership(0.5); });
                attempt([&] { bct.toString(); });
                break;
            }
            default: {  // files that cannot be read or written, and examples
                attempt([&] { drop(fl::FllImporter().fromFile("no such folder/file.fll")); });
                attempt([&] { drop(fl::FclImporter().fromFile("no such folder/file.fcl")); });
                EngineP e(a % 3 == 0 ? fl::Console::mamdani() : a % 3 == 1 ? fl::Console::takagiSugeno() : fl::Console::hybrid());
                attempt([&] { fl::FllExporter().toFile("no such folder/file.fll", e.get()); });
                attempt([&] { fl::RScriptExporter().toFile("no such folder/file.R", e.get()); });
                attempt([&] { fl::FldExporter().toFile("no such folder/file.fld", e.get(), 4, fl::FldExporter::AllVariables); });
                std::unique_ptr<fl::Exporter> x(fl::FllExporter().clone());
                std::unique_ptr<fl::Importer> y(fl::FisImporter().clone());
                attempt([&] { e->getInputVariable(text); });
                attempt([&] { e->getInputVariable(0)->getTerm(text); });
                attempt([&] { fl::Op::toScalars(text); });
                attempt([&] { throw fl::Exception(text, FL_AT); });
            }
        }
        failed = failed || thrown;
    });
    c.check(left == 0, "leak", strf("%ld allocations are left", left));
    c.nontrivial(failed);
    static const char* const kinds[] = {"formulas", "rules", "parameters", "factories", "fuzzy outputs", "files"};
    c.label(kinds[kind]);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P37",
                     {{"histories", histories, 12000, 400000, "at least one operation failed or a copy was made"},
                      {"texts", texts, 12000, 400000, "an importer read a text, possibly damaged"},
                      {"components", components, 20000, 400000, "an operation failed"}});
}
