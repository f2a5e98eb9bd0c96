// P29: containers of components behave as ordered lists.
#include "build.h"
#include <algorithm>
using namespace pbt;

static long alive = 0;

template <class Base>
struct Tracked : Base {
    int id;
    template <class... A>
    explicit Tracked(int i, A&&... a) : Base(std::forward<A>(a)...), id(i) { ++alive; }
    ~Tracked() override { --alive; }
};

// one container under test; a component is known by its address
template <class T>
struct List {
    std::string kind;
    std::function<T*(const std::string&)> make;
    std::function<void(T*, const std::string&)> rename;
    std::function<std::string(T*)> name;
    std::function<void(T*)> add;
    std::function<void(T*, size_t)> insert;
    std::function<T*(T*, size_t)> set;                  // optional
    std::function<T*(size_t)> get;
    std::function<T*(const std::string&)> getByName;    // optional
    std::function<bool(const std::string&)> has;        // optional
    std::function<T*(size_t)> remove;
    std::function<T*(const std::string&)> removeByName; // optional
    std::function<size_t()> size;
    std::function<const std::vector<T*>&()> all;
    std::function<std::vector<T*>&()> mutableAll;
    std::function<void(const std::vector<T*>&)> setAll;
    std::function<void()> destroy;
};

template <class T>
static void drive(Case& c, List<T> l) {
    Src& s = c.src;
    static const std::vector<std::string> names = {"a", "b", "c", "A", "", "a b"};
    std::vector<T*> model;
    std::vector<std::string> labels;  // names of the model
    long before = alive;
    bool nontrivial = false, inserted = false;
    auto where = [&](const std::string& n) {
        for (size_t i = 0; i < labels.size(); ++i)
            if (labels[i] == n)
                return (int)i;
        return -1;
    };
    auto compare = [&](const std::string& after) {
        c.checkf(l.size() == model.size(), "size", [&] { return "after " + after + ", " + std::to_string(l.size()) + " components instead of " + std::to_string(model.size()); });
        c.checkf(l.all() == model && l.mutableAll() == model, "contents", [&] { return "after " + after + ", other components or another order"; });
        for (size_t i = 0; i < model.size(); ++i) {
            c.checkf(l.get(i) == model[i], "get", [&] { return "after " + after + ", index " + std::to_string(i) + " has another component"; });
            c.checkf(l.name(model[i]) == labels[i], "name", [&] { return "after " + after + ", component " + std::to_string(i) + " is named " + l.name(model[i]); });
        }
        for (auto& n : names) {
            int w = where(n);
            if (l.has)
                c.checkf(l.has(n) == (w >= 0), "has", [&] { return "after " + after + ", has <" + n + "> is " + (w >= 0 ? "false" : "true"); });
            if (l.getByName) {
                T* x = nullptr;
                bool threw = false;
                try {
                    x = l.getByName(n);
                } catch (fl::Exception&) {
                    threw = true;
                }
                c.checkf(threw == (w < 0), "lookup", [&] { return "after " + after + ", <" + n + ">" + (threw ? " is not found" : " is found"); });
                c.checkf(threw || x == model[w], "lookup", [&] { return "after " + after + ", <" + n + "> is not the first of that name"; });
            }
        }
        c.checkf(alive == before + (long)model.size(), "released", [&] { return "after " + after + ", " + std::to_string(alive - before) + " components live, " + std::to_string(model.size()) + " are owned"; });
    };
    compare("construction");
    auto fresh = [&](std::string& n) {
        n = s.oneOf(names);
        return l.make(n);
    };
    auto release = [&](T* got, T* expect, const std::string& what) {
        c.check(got == expect, "returned", what + " returned another component");
        delete got;
    };
    for (int step = s.range(1, 14); step > 0; --step) {
        std::string n, what;
        size_t k = model.empty() ? 0 : s.u((uint32_t)model.size());
        switch (s.u(12)) {
            case 0:
            case 1: {
                T* x = fresh(n);
                what = "add <" + n + ">";
                l.add(x);
                model.push_back(x);
                labels.push_back(n);
                break;
            }
            case 2:
            case 3: {
                size_t at = s.u((uint32_t)model.size() + 1);
                T* x = fresh(n);
                what = "insert <" + n + "> at " + std::to_string(at);
                l.insert(x, at);
                model.insert(model.begin() + at, x);
                labels.insert(labels.begin() + at, n);
                inserted = true;
                break;
            }
            case 4: {
                if (!l.set || model.empty())
                    continue;
                T* x = fresh(n);
                what = "set <" + n + "> at " + std::to_string(k);
                release(l.set(x, k), model[k], what);
                model[k] = x;
                labels[k] = n;
                nontrivial = nontrivial || inserted;
                break;
            }
            case 5:
            case 6:
                if (model.empty())
                    continue;
                what = "remove " + std::to_string(k);
                release(l.remove(k), model[k], what);
                model.erase(model.begin() + k);
                labels.erase(labels.begin() + k);
                nontrivial = nontrivial || inserted;
                break;
            case 7: {
                if (!l.removeByName)
                    continue;
                n = s.oneOf(names);
                what = "remove <" + n + ">";
                int w = where(n);
                try {
                    T* got = l.removeByName(n);
                    c.check(w >= 0, "lookup", "removed <" + n + ">, which is not there");
                    release(got, model[w], what);
                    model.erase(model.begin() + w);
                    labels.erase(labels.begin() + w);
                    nontrivial = nontrivial || inserted;
                } catch (fl::Exception&) {
                    c.check(w < 0, "lookup", what + " raised an exception");
                }
                break;
            }
            case 8:
                if (model.empty())
                    continue;
                n = s.oneOf(names);
                what = "rename " + std::to_string(k) + " to <" + n + ">";
                l.rename(model[k], n);
                labels[k] = l.name(model[k]);
                break;
            case 9: {
                if (s.coin()) {
                    what = "reverse through all";
                    std::vector<T*> v(l.all());
                    std::reverse(v.begin(), v.end());
                    l.setAll(v);
                    std::reverse(model.begin(), model.end());
                    std::reverse(labels.begin(), labels.end());
                } else {  // some of them, perhaps none, and perhaps a new one
                    what = "replace all";
                    std::vector<T*> list, gone;
                    std::vector<std::string> kept;
                    bool none = s.chance(1, 3);
                    for (size_t i = 0; i < model.size(); ++i)
                        if (!none && s.coin()) {
                            list.push_back(model[i]);
                            kept.push_back(labels[i]);
                        } else
                            gone.push_back(model[i]);
                    if (!none && s.coin()) {
                        list.push_back(fresh(n));
                        kept.push_back(n);
                    }
                    l.setAll(list);
                    model = list;
                    labels = kept;
                    c.check(l.all() == model, "contents", "replacing all gives other components");
                    for (T* x : gone)
                        delete x;
                }
                break;
            }
            case 10:
                if (model.size() < 2)
                    continue;
                what = "swap in place";
                std::swap(l.mutableAll()[0], l.mutableAll()[k]);
                std::swap(model[0], model[k]);
                std::swap(labels[0], labels[k]);
                break;
            case 11: {  // out of the list
                what = "access out of range";
                size_t at = model.size() + s.u(3);
                int raised = 0;
                try { l.get(at); } catch (std::exception&) { ++raised; }
                try { l.remove(at); } catch (std::exception&) { ++raised; }
                c.check(raised == 2, "range", "index " + std::to_string(at) + " of " + std::to_string(model.size()) + " was accepted");
                if (l.set) {
                    T* x = fresh(n);
                    bool threw = false;
                    try { l.set(x, at); } catch (std::exception&) { threw = true; }
                    c.check(threw, "range", "set accepted index " + std::to_string(at) + " of " + std::to_string(model.size()));
                    delete x;
                }
                break;
            }
        }
        c.say(what);
        compare(what);
    }
    l.destroy();
    c.checkf(alive == before, "released", [&] { return "after destruction of the owner, " + std::to_string(alive - before) + " components live"; });
    c.label(l.kind);
    c.nontrivial(nontrivial);
}

#define OPS(T, N, owner)                                                                                                                        \
    l.add = [=](T* x) { owner->add##N(x); };                                                                                                    \
    l.insert = [=](T* x, size_t i) { owner->insert##N(x, i); };                                                                                 \
    l.get = [=](size_t i) { return owner->get##N(i); };                                                                                         \
    l.remove = [=](size_t i) { return owner->remove##N(i); };                                                                                   \
    l.size = [=] { return owner->numberOf##N##s(); };                                                                                           \
    l.setAll = [=](const std::vector<T*>& list_) { owner->set##N##s(list_); };                                                                        \
    l.destroy = [=] { delete owner; };

#define NAMED(T, N, owner)                                                                                                                      \
    l.set = [=](T* x, size_t i) { return owner->set##N(x, i); };                                                                                \
    l.getByName = [=](const std::string& n) { return owner->get##N(n); };                                                                       \
    l.has = [=](const std::string& n) { return owner->has##N(n); };                                                                             \
    l.removeByName = [=](const std::string& n) { return owner->remove##N(n); };

template <class T>
static void naming(List<T>& l) {
    l.name = [](T* x) { return x->getName(); };
    l.rename = [](T* x, const std::string& n) { x->setName(n); };
}

static void engineLists(Case& c) {
    fl::Engine* e = new fl::Engine("e");
    const fl::Engine* k = e;
    switch (c.src.u(3)) {
        case 0: {
            typedef fl::InputVariable T;
            List<T> l;
            l.kind = "inputs";
            l.make = [](const std::string& n) { return new Tracked<T>(0, n); };
            naming(l);
            OPS(T, InputVariable, e)
            NAMED(T, InputVariable, e)
            l.all = [=]() -> const std::vector<T*>& { return k->inputVariables(); };
            l.mutableAll = [=]() -> std::vector<T*>& { return e->inputVariables(); };
            drive(c, l);
            break;
        }
        case 1: {
            typedef fl::OutputVariable T;
            List<T> l;
            l.kind = "outputs";
            l.make = [](const std::string& n) { return new Tracked<T>(0, n); };
            naming(l);
            OPS(T, OutputVariable, e)
            NAMED(T, OutputVariable, e)
            l.all = [=]() -> const std::vector<T*>& { return k->outputVariables(); };
            l.mutableAll = [=]() -> std::vector<T*>& { return e->outputVariables(); };
            drive(c, l);
            break;
        }
        default: {
            typedef fl::RuleBlock T;
            List<T> l;
            l.kind = "rule blocks";
            l.make = [](const std::string& n) { return new Tracked<T>(0, n); };
            naming(l);
            OPS(T, RuleBlock, e)
            NAMED(T, RuleBlock, e)
            l.all = [=]() -> const std::vector<T*>& { return k->ruleBlocks(); };
            l.mutableAll = [=]() -> std::vector<T*>& { return e->ruleBlocks(); };
            drive(c, l);
        }
    }
}
static void otherLists(Case& c) {
    if (c.src.coin()) {
        typedef fl::Rule T;
        fl::RuleBlock* b = new fl::RuleBlock;
        const fl::RuleBlock* k = b;
        List<T> l;
        l.kind = "rules";
        l.make = [](const std::string& n) { return new Tracked<T>(0, n); };
        l.name = [](T* x) { return x->getText(); };
        l.rename = [](T* x, const std::string& n) { x->setText(n); };
        OPS(T, Rule, b)
        l.all = [=]() -> const std::vector<T*>& { return k->rules(); };
        l.mutableAll = [=]() -> std::vector<T*>& { return b->rules(); };
        drive(c, l);
    } else {
        typedef fl::Term T;
        fl::Variable* v = c.src.coin() ? (fl::Variable*)new fl::InputVariable("v", 0, 1) : new fl::OutputVariable("v", 0, 1);
        const fl::Variable* k = v;
        List<T> l;
        l.kind = "terms";
        l.make = [](const std::string& n) { return (T*)new Tracked<fl::Triangle>(0, n, 0.0, 1.0, 2.0); };
        naming(l);
        OPS(T, Term, v)
        l.getByName = [=](const std::string& n) { return k->getTerm(n); };
        l.has = [=](const std::string& n) { return k->hasTerm(n); };
        l.all = [=]() -> const std::vector<T*>& { return k->terms(); };
        l.mutableAll = [=]() -> std::vector<T*>& { return v->terms(); };
        drive(c, l);
    }
}

// inputs, outputs and blocks of one engine do not mix, values by name, order of all variables, constructors
static void together(Case& c) {
    Src& s = c.src;
    static const std::vector<std::string> names = {"a", "b", "c", "d"};
    long before = alive;
    fl::Engine* e = nullptr;
    std::vector<fl::InputVariable*> in;
    std::vector<fl::OutputVariable*> out;
    std::vector<fl::RuleBlock*> blocks;
    for (int i = s.range(0, 3); i > 0; --i)
        in.push_back(new Tracked<fl::InputVariable>(0, s.oneOf(names)));
    for (int i = s.range(0, 3); i > 0; --i)
        out.push_back(new Tracked<fl::OutputVariable>(0, s.oneOf(names)));
    for (int i = s.range(0, 2); i > 0; --i)
        blocks.push_back(new Tracked<fl::RuleBlock>(0, s.oneOf(names)));
    if (s.coin())
        e = new fl::Engine("e", "d", in, out, blocks);
    else {
        e = new fl::Engine;
        e->setInputVariables(in);
        e->setOutputVariables(out);
        e->setRuleBlocks(blocks);
    }
    std::vector<fl::Variable*> all(in.begin(), in.end());
    all.insert(all.end(), out.begin(), out.end());
    c.check(e->variables() == all, "variables", "the variables are not the inputs followed by the outputs");
    c.check(e->inputVariables() == in && e->outputVariables() == out && e->ruleBlocks() == blocks, "contents", "the components are not those given");
    for (auto* v : in)
        c.check(v->type() == fl::Variable::Input, "type", "type of an input");
    for (auto* v : out)
        c.check(v->type() == fl::Variable::Output, "type", "type of an output");
    std::map<fl::Variable*, double> value;
    for (auto* v : all)
        value[v] = model::NaN;
    auto find = [&](const auto& list, const std::string& n) -> fl::Variable* {
        for (auto* v : list)
            if (v->getName() == n)
                return v;
        return nullptr;
    };
    for (int i = s.range(0, 8); i > 0; --i) {
        std::string n = s.oneOf(names);
        double x = s.num(-5, 5);
        if (s.coin()) {
            fl::Variable* v = find(in, n);
            bool threw = false;
            try {
                e->setInputValue(n, x);
            } catch (fl::Exception&) {
                threw = true;
            }
            c.check(threw == !v, "set-value", "setting the value of input " + n + (threw ? " raised an exception" : " was accepted"));
            if (v)
                value[v] = x;
        } else if (!out.empty()) {
            fl::OutputVariable* v = out[s.u((uint32_t)out.size())];
            v->setValue(x);
            value[v] = x;
            n = s.oneOf(names);
            fl::Variable* w = find(out, n);
            double got = 0;
            bool threw = false;
            try {
                got = e->getOutputValue(n);
            } catch (fl::Exception&) {
                threw = true;
            }
            c.check(threw == !w, "get-value", "getting the value of output " + n + (threw ? " raised an exception" : " was accepted"));
            c.check(threw || same(got, value[w]), "get-value", "the value of output " + n + " is " + str(got));
        }
    }
    for (auto* v : all)
        c.check(same(v->getValue(), value[v]), "value", "the value of " + v->getName() + " is " + str(v->getValue()) + " instead of " + str(value[v]));
    size_t n = in.size() + out.size() + blocks.size();
    c.check(alive == before + (long)n, "released", "some component was released");
    delete e;
    c.check(alive == before, "released", "the engine left " + std::to_string(alive - before) + " components");
    c.nontrivial(in.size() > 1 || out.size() > 1);
}

// sorting the terms of a variable
static void sorting(Case& c) {
    Src& s = c.src;
    long before = alive;
    {
        fl::InputVariable v("v", 0, 1);
        std::vector<std::pair<double, fl::Term*>> expect;
        double lastC = 0;
        int n = s.range(0, 6);
        fl::Engine engine;
        engine.addInputVariable(new fl::InputVariable("a", 0, 1));
        engine.getInputVariable(0)->setValue(0.25);
        for (int i = 0; i < n; ++i) {
            double centre = 0.05 * s.range(2, 18);
            lastC = s.coin() ? centre : lastC ? lastC : centre;
            fl::Term* t = nullptr;
            double w = 0.05 * s.range(1, 2);
            int kind = (int)s.u(5);
            if (kind == 4)  // the value of a linear term is its centroid
                t = new Tracked<fl::Linear>(i, "t", std::vector<double>{2.0, lastC - 0.5}, &engine);
            else if (kind == 0)
                t = new Tracked<fl::Triangle>(i, "t", lastC - w, lastC, lastC + w);
            else if (kind == 1)
                t = new Tracked<fl::Trapezoid>(i, "t", lastC - w, lastC - w / 2, lastC + w / 2, lastC + w);
            else if (kind == 2)
                t = new Tracked<fl::Rectangle>(i, "t", lastC - w, lastC + w);
            else
                t = new Tracked<fl::Constant>(i, "t", lastC);
            expect.push_back({lastC, t});
            v.addTerm(t);
            c.note([&] { return t->toString(); });
        }
        v.sort();
        c.check(v.numberOfTerms() == expect.size(), "terms", "sorting left " + std::to_string(v.numberOfTerms()) + " terms");
        std::set<fl::Term*> seen;
        double last = -1;
        for (auto* t : v.terms()) {
            c.check(seen.insert(t).second, "terms", "a term appears twice");
            bool mine = false;
            for (auto& e : expect)
                if (e.second == t) {
                    mine = true;
                    c.checkf(e.first >= last - 0.01, "order", [&] { return "a term centred at " + str(e.first) + " comes after one at " + str(last); });
                    last = std::max(last, e.first);
                }
            c.check(mine, "terms", "a term appears that was not there");
        }
        c.nontrivial(n > 2);
    }
    c.check(alive == before, "released", std::to_string(alive - before) + " terms were not released");
}

int main(int argc, char** argv) {
    std::string rule = "a component was removed or replaced after one was inserted";
    return pbt::main(argc, argv, "P29", {
        {"engine", engineLists, 40000, 1500000, rule},
        {"rules-and-terms", otherLists, 25000, 800000, rule},
        {"together", together, 20000, 600000, "at least two inputs or outputs"},
        {"sorting", sorting, 8000, 300000, "at least three terms"},
    });
}
