// P42: setting an attribute changes that attribute, what is documented to follow it, and nothing else.
#include "build.h"
#include <algorithm>
#include <cmath>
using namespace pbt;

// values are compared as texts that tell all doubles apart
static std::string T(double x) { return std::isnan(x) ? "nan" : strf("%.17g", x); }
static std::string T(bool x) { return x ? "true" : "false"; }
static std::string T(int x) { return std::to_string(x); }
static std::string T(const std::string& x) { return "<" + x + ">"; }
static std::string T(const void* x) { return strf("%p", x); }

static double scalar(Src& s) {
    if (s.chance(1, 10))
        return s.anyDouble();
    return s.num(-2, 3);
}
static std::string text(Src& s) {
    return s.oneOf(std::vector<std::string>{"a", "", "b", "some words", "x1", "\xc3\xa9", "if", "#", " a", "b  ", "\ta"});
}

struct Subject {
    typedef std::vector<std::pair<std::string, std::string>> Values;
    struct Attribute {
        std::string name;
        std::function<std::string()> get;
    };
    struct Setter {
        std::string name;
        std::function<Values(Src&)> set;  // what has changed
    };
    std::string what;
    std::vector<Attribute> attributes;
    std::vector<Setter> setters;
    std::function<void(Case&)> finally;

    void get(const std::string& n, std::function<std::string()> g) { attributes.push_back({n, g}); }
    void set(const std::string& n, std::function<Values(Src&)> f) { setters.push_back({n, f}); }
    // an attribute with its setter
    template <class O, class G, class S>
    void number(const std::string& n, O* o, G g, S f) {
        get(n, [=] { return T(double((o->*g)())); });
        set(n, [=](Src& s) {
            double v = scalar(s);
            (o->*f)(v);
            return Values{{n, T(v)}};
        });
    }
    template <class O, class G, class S>
    void flag(const std::string& n, O* o, G g, S f) {
        get(n, [=] { return T(bool((o->*g)())); });
        set(n, [=](Src& s) {
            bool v = s.coin();
            (o->*f)(v);
            return Values{{n, T(v)}};
        });
    }
    template <class O, class G, class S>
    void integer(const std::string& n, O* o, G g, S f, int least = 0) {
        get(n, [=] { return T(int((o->*g)())); });
        set(n, [=](Src& s) {
            int v = s.range(least, 2000);
            (o->*f)(v);
            return Values{{n, T(v)}};
        });
    }
    template <class O, class G, class S>
    void words(const std::string& n, O* o, G g, S f) {
        get(n, [=] { return T(std::string((o->*g)())); });
        set(n, [=](Src& s) {
            std::string v = text(s);
            (o->*f)(v);
            return Values{{n, T(v)}};
        });
    }
    std::map<std::string, std::string> all() const {
        std::map<std::string, std::string> r;
        for (auto& a : attributes)
            r[a.name] = a.get();
        return r;
    }
};
static std::string compare(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b) {
    std::string r;
    for (auto& x : a)
        if (b.at(x.first) != x.second)
            r += "\n  " + x.first + " is " + b.at(x.first) + " instead of " + x.second;
    return r;
}

static void exercise(Case& c, Subject& u) {
    Src& s = c.src;
    c.say(u.what);
    auto state = u.all();
    int changes = 0;
    for (int step = s.range(1, 12); step > 0; --step) {
        auto& f = u.setters[s.u((uint32_t)u.setters.size())];
        auto before = state;
        Subject::Values v = f.set(s);
        for (auto& x : v)
            state[x.first] = x.second;
        changes += state != before;
        auto got = u.all();
        c.say("set " + f.name + (v.empty() ? "" : " to " + v[0].second));
        c.checkf(got == state, "attributes", [&] { return u.what + ", after setting " + f.name + (v.empty() ? "" : " to " + v[0].second) + ":" + compare(state, got); });
    }
    if (u.finally)
        u.finally(c);
    c.nontrivial(changes >= 2);
    c.label(u.what.substr(0, u.what.find(' ')));
}

// terms

template <class X>
struct Shape {
    std::unique_ptr<X> t{new X};
    Subject u;
    std::function<X*()> twin;
    Shape() {
        u.what = t->className();
        u.words("name", t.get(), &X::getName, &X::setName);
        u.number("height", t.get(), &X::getHeight, &X::setHeight);
    }
    void run(Case& c) {
        u.finally = [this](Case& c) {
            auto check = [&](fl::Term& w, const char* what) {
                c.checkf(w.parameters() == t->parameters() && w.toString() == t->toString(), "term-text", [&] { return t->toString() + " but " + what + " " + w.toString(); });
                for (int i = 0; i < 24; ++i) {
                    double x = i < 20 ? -3 + 0.37 * i : i == 20 ? 0 : i == 21 ? NAN : i == 22 ? INFINITY : -INFINITY;
                    double a = t->membership(x), b = w.membership(x);
                    c.checkf(same(a, b) || (std::isinf(a) && a == b), "term-membership", [&] { return t->toString() + " at " + str(x) + " has " + str(a) + " but " + what + " has " + str(b); });
                }
            };
            std::unique_ptr<fl::Term> copy(t->clone());
            check(*copy, "its clone");
            X other(*t);
            check(other, "its copy");
            X assigned;
            assigned = *t;
            check(assigned, "the assigned one");
            if (twin) {
                bool finite = true;
                auto all = u.all();
                for (auto& a : all)
                    finite = finite && (a.first == "name" || (a.second != "nan" && a.second.find("inf") == std::string::npos));
                if (finite) {
                    std::unique_ptr<X> w(twin());
                    check(*w, "one constructed with its parameters");
                    c.label("constructed");
                }
            }
        };
        exercise(c, u);
    }
};
#define NUM(p) h.u.number(#p, h.t.get(), &X::get##p, &X::set##p)
template <class X, class F>
static void shape(Case& c, F f) {
    Shape<X> h;
    f(h);
    h.run(c);
}

static void terms(Case& c) {
    Src& s = c.src;
    switch (s.u(22)) {
        case 0: { using X = fl::Triangle; shape<X>(c, [](Shape<X>& h) { NUM(VertexA); NUM(VertexB); NUM(VertexC); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getVertexA(), t->getVertexB(), t->getVertexC(), t->getHeight()); }; }); break; }
        case 1: { using X = fl::Bell; shape<X>(c, [](Shape<X>& h) { NUM(Center); NUM(Width); NUM(Slope); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getCenter(), t->getWidth(), t->getSlope(), t->getHeight()); }; }); break; }
        case 2: { using X = fl::Binary; shape<X>(c, [](Shape<X>& h) { NUM(Start); NUM(Direction); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getStart(), t->getDirection(), t->getHeight()); }; }); break; }
        case 3: { using X = fl::Concave; shape<X>(c, [](Shape<X>& h) { NUM(Inflection); NUM(End); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getInflection(), t->getEnd(), t->getHeight()); }; }); break; }
        case 4: { using X = fl::Constant; shape<X>(c, [](Shape<X>& h) { NUM(Value); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getValue()); }; }); break; }
        case 5: { using X = fl::Cosine; shape<X>(c, [](Shape<X>& h) { NUM(Center); NUM(Width); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getCenter(), t->getWidth(), t->getHeight()); }; }); break; }
        case 6: { using X = fl::Gaussian; shape<X>(c, [](Shape<X>& h) { NUM(Mean); NUM(StandardDeviation); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getMean(), t->getStandardDeviation(), t->getHeight()); }; }); break; }
        case 7: { using X = fl::GaussianProduct; shape<X>(c, [](Shape<X>& h) { NUM(MeanA); NUM(StandardDeviationA); NUM(MeanB); NUM(StandardDeviationB); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getMeanA(), t->getStandardDeviationA(), t->getMeanB(), t->getStandardDeviationB(), t->getHeight()); }; }); break; }
        case 8: { using X = fl::PiShape; shape<X>(c, [](Shape<X>& h) { NUM(BottomLeft); NUM(TopLeft); NUM(TopRight); NUM(BottomRight); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getBottomLeft(), t->getTopLeft(), t->getTopRight(), t->getBottomRight(), t->getHeight()); }; }); break; }
        case 9: { using X = fl::Ramp; shape<X>(c, [](Shape<X>& h) { NUM(Start); NUM(End); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getStart(), t->getEnd(), t->getHeight()); }; }); break; }
        case 10: { using X = fl::Rectangle; shape<X>(c, [](Shape<X>& h) { NUM(Start); NUM(End); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getStart(), t->getEnd(), t->getHeight()); }; }); break; }
        case 11: { using X = fl::SShape; shape<X>(c, [](Shape<X>& h) { NUM(Start); NUM(End); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getStart(), t->getEnd(), t->getHeight()); }; }); break; }
        case 12: { using X = fl::ZShape; shape<X>(c, [](Shape<X>& h) { NUM(Start); NUM(End); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getStart(), t->getEnd(), t->getHeight()); }; }); break; }
        case 13: { using X = fl::Sigmoid; shape<X>(c, [](Shape<X>& h) { NUM(Inflection); NUM(Slope); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getInflection(), t->getSlope(), t->getHeight()); }; }); break; }
        case 14: { using X = fl::SigmoidDifference; shape<X>(c, [](Shape<X>& h) { NUM(Left); NUM(Rising); NUM(Falling); NUM(Right); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getLeft(), t->getRising(), t->getFalling(), t->getRight(), t->getHeight()); }; }); break; }
        case 15: { using X = fl::SigmoidProduct; shape<X>(c, [](Shape<X>& h) { NUM(Left); NUM(Rising); NUM(Falling); NUM(Right); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getLeft(), t->getRising(), t->getFalling(), t->getRight(), t->getHeight()); }; }); break; }
        case 16: { using X = fl::Spike; shape<X>(c, [](Shape<X>& h) { NUM(Center); NUM(Width); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getCenter(), t->getWidth(), t->getHeight()); }; }); break; }
        case 17: { using X = fl::Trapezoid; shape<X>(c, [](Shape<X>& h) { NUM(VertexA); NUM(VertexB); NUM(VertexC); NUM(VertexD); auto* t = h.t.get(); h.twin = [t] { return new X(t->getName(), t->getVertexA(), t->getVertexB(), t->getVertexC(), t->getVertexD(), t->getHeight()); }; }); break; }
        case 18: {
            using X = fl::Discrete;
            shape<X>(c, [](Shape<X>& h) {
                X* t = h.t.get();
                auto show = [](const std::vector<X::Pair>& v) {
                    std::string r = "{";
                    for (auto& p : v)
                        r += T(p.first) + "," + T(p.second) + " ";
                    return r + "}";
                };
                t->setXY({{0, 0}, {1, 1}});
                h.u.get("xy", [=] { return show(t->xy()); });
                h.u.set("xy", [=](Src& s) {
                    std::vector<X::Pair> v;
                    double x = s.num(-2, 0);
                    for (int n = s.range(1, 5); n > 0; --n) {
                        v.push_back({x, s.num(0, 1)});
                        x += s.num(0.1, 1);
                    }
                    t->setXY(v);
                    return Subject::Values{{"xy", show(v)}};
                });
                h.u.set("a pair", [=](Src& s) {
                    auto v = t->xy();
                    size_t i = s.u((uint32_t)v.size());
                    v[i].second = s.num(0, 1);
                    t->xy()[i].second = v[i].second;
                    return Subject::Values{{"xy", show(v)}};
                });
                h.twin = [t] { return new X(t->getName(), t->xy(), t->getHeight()); };
            });
            break;
        }
        case 19: {
            using X = fl::Linear;
            static fl::Engine one("one"), two("two");
            shape<X>(c, [](Shape<X>& h) {
                X* t = h.t.get();
                t->setEngine(&one);
                auto show = [](const std::vector<fl::scalar>& v) {
                    std::string r = "{";
                    for (auto& p : v)
                        r += T(p) + " ";
                    return r + "}";
                };
                auto gen = [](Src& s) {
                    std::vector<fl::scalar> v;
                    for (int n = s.range(0, 4); n > 0; --n)
                        v.push_back(scalar(s));
                    return v;
                };
                h.u.get("coefficients", [=] { return show(t->coefficients()); });
                h.u.get("engine", [=] { return T((const void*)t->getEngine()); });
                h.u.set("coefficients", [=](Src& s) {
                    auto v = gen(s);
                    t->setCoefficients(v);
                    return Subject::Values{{"coefficients", show(v)}};
                });
                h.u.set("engine", [=](Src& s) {
                    fl::Engine* e = s.coin() ? &one : &two;
                    t->setEngine(e);
                    return Subject::Values{{"engine", T((const void*)e)}};
                });
                h.u.set("both", [=](Src& s) {
                    fl::Engine* e = s.coin() ? &one : &two;
                    auto v = gen(s);
                    t->set(v, e);
                    return Subject::Values{{"engine", T((const void*)e)}, {"coefficients", show(v)}};
                });
                h.twin = [t] { return new X(t->getName(), t->coefficients(), t->getEngine()); };
            });
            break;
        }
        case 20: {
            fl::Function t("f", "1");
            static fl::Engine one("one"), two("two");
            Subject u;
            u.what = "Function";
            u.words("name", &t, &fl::Function::getName, &fl::Function::setName);
            u.number("height", &t, &fl::Function::getHeight, &fl::Function::setHeight);
            u.words("formula", &t, &fl::Function::getFormula, &fl::Function::setFormula);
            u.get("engine", [&] { return T((const void*)t.getEngine()); });
            u.get("loaded", [&] { return T(t.isLoaded()); });
            u.set("engine", [&](Src& s) {
                fl::Engine* e = s.coin() ? &one : &two;
                t.setEngine(e);
                return Subject::Values{{"engine", T((const void*)e)}};
            });
            u.set("formula", [&](Src& s) {
                std::string f = s.oneOf(std::vector<std::string>{"2", "x + 1", "(1 + 2) * x"});
                t.load(f);
                return Subject::Values{{"formula", T(f)}, {"loaded", "true"}};
            });
            u.set("unload", [&](Src& s) {
                t.unload();
                return Subject::Values{{"loaded", "false"}};
            });
            exercise(c, u);
            break;
        }
        default: {
            // activated and aggregated terms
            fl::Triangle a("a", 0, 0.5, 1), b("b", 0, 1, 2);
            fl::Minimum m;
            fl::AlgebraicProduct p;
            fl::Activated t(&a, 1, &m);
            fl::Aggregated g("g", 0, 1);
            Subject u;
            u.what = "Activated and Aggregated";
            u.number("degree", &t, &fl::Activated::getDegree, &fl::Activated::setDegree);
            u.get("term", [&] { return T((const void*)t.getTerm()); });
            u.get("implication", [&] { return T((const void*)t.getImplication()); });
            u.get("activated.name", [&] { return t.getTerm() ? T(t.getName()) : T(std::string()); });
            u.set("term", [&](Src& s) {
                fl::Term* q = s.u(3) == 0 ? nullptr : s.coin() ? (fl::Term*)&b : &a;
                t.setTerm(q);
                return Subject::Values{{"term", T((const void*)q)}, {"activated.name", T(q ? q->getName() : "")}};
            });
            u.set("implication", [&](Src& s) {
                fl::TNorm* q = s.u(3) == 0 ? nullptr : s.coin() ? (fl::TNorm*)&m : &p;
                t.setImplication(q);
                return Subject::Values{{"implication", T((const void*)q)}};
            });
            u.words("name", &g, &fl::Aggregated::getName, &fl::Aggregated::setName);
            u.get("minimum", [&] { return T(g.getMinimum()); });
            u.get("maximum", [&] { return T(g.getMaximum()); });
            u.get("range", [&] { return T(g.range()); });
            u.get("aggregation", [&] { return T((const void*)g.getAggregation()); });
            auto bounds = [](double lo, double hi) { return Subject::Values{{"minimum", T(lo)}, {"maximum", T(hi)}, {"range", T(hi - lo)}}; };
            u.set("minimum", [&](Src& s) { double v = scalar(s); double hi = g.getMaximum(); g.setMinimum(v); return bounds(v, hi); });
            u.set("maximum", [&](Src& s) { double v = scalar(s); double lo = g.getMinimum(); g.setMaximum(v); return bounds(lo, v); });
            u.set("range", [&](Src& s) { double v = scalar(s), w = scalar(s); s.coin() ? g.setRange(v, w) : (void)g.range(v, w); return bounds(v, w); });
            u.set("aggregation", [&](Src& s) {
                fl::SNorm* q = s.coin() ? new fl::Maximum : nullptr;
                g.setAggregation(q);
                return Subject::Values{{"aggregation", T((const void*)q)}};
            });
            u.get("terms", [&] { return T((int)g.numberOfTerms()); });
            exercise(c, u);
        }
    }
}

static double bounded(double x, double lo, double hi) { return x > hi ? hi : x < lo ? lo : x; }

template <class V>
static void variable(Subject& u, V* v) {
    u.words("name", v, &V::getName, &V::setName);
    u.words("description", v, &V::getDescription, &V::setDescription);
    u.flag("enabled", v, &V::isEnabled, &V::setEnabled);
    u.flag("locked", v, &V::isLockValueInRange, &V::setLockValueInRange);
    u.get("minimum", [=] { return T(v->getMinimum()); });
    u.get("maximum", [=] { return T(v->getMaximum()); });
    u.get("range", [=] { return T(v->range()); });
    u.get("value", [=] { return T(v->getValue()); });
    u.get("terms", [=] { return T((int)v->numberOfTerms()); });
    bool output = v->type() == fl::Variable::Output;
    auto bounds = [output](double lo, double hi) {
        Subject::Values r{{"minimum", T(lo)}, {"maximum", T(hi)}, {"range", T(hi - lo)}};
        if (output) {
            r.push_back({"fuzzy minimum", T(lo)});
            r.push_back({"fuzzy maximum", T(hi)});
        }
        return r;
    };
    u.set("minimum", [=](Src& s) { double x = scalar(s), hi = v->getMaximum(); v->setMinimum(x); return bounds(x, hi); });
    u.set("maximum", [=](Src& s) { double x = scalar(s), lo = v->getMinimum(); v->setMaximum(x); return bounds(lo, x); });
    u.set("range", [=](Src& s) { double x = scalar(s), y = scalar(s); v->setRange(x, y); return bounds(x, y); });
    u.set("value", [=](Src& s) {
        double x = scalar(s), lo = v->getMinimum(), hi = v->getMaximum();
        if (v->isLockValueInRange() && !(lo <= hi)) {
            v->setRange(lo = 0, hi = 1);
            v->setValue(x);
            auto r = bounds(0, 1);
            r.push_back({"value", T(bounded(x, lo, hi))});
            return r;
        }
        v->setValue(x);
        return Subject::Values{{"value", T(v->isLockValueInRange() ? bounded(x, lo, hi) : x)}};
    });
    u.set("terms", [=](Src& s) {
        v->addTerm(new fl::Constant("c", s.num(0, 1)));
        return Subject::Values{{"terms", T((int)v->numberOfTerms())}};
    });
}

static void variables(Case& c) {
    Src& s = c.src;
    Subject u;
    if (s.u(3) == 0) {
        fl::InputVariable v("v", 0, 1);
        u.what = "InputVariable";
        variable(u, &v);
        exercise(c, u);
        return;
    }
    fl::OutputVariable v("v", 0, 1);
    u.what = "OutputVariable";
    variable(u, &v);
    u.number("previous", &v, &fl::OutputVariable::getPreviousValue, &fl::OutputVariable::setPreviousValue);
    u.number("default", &v, &fl::OutputVariable::getDefaultValue, &fl::OutputVariable::setDefaultValue);
    u.flag("lock previous", &v, &fl::OutputVariable::isLockPreviousValue, &fl::OutputVariable::setLockPreviousValue);
    u.get("fuzzy name", [&] { return T(v.fuzzyOutput()->getName()); });
    u.get("fuzzy minimum", [&] { return T(v.fuzzyOutput()->getMinimum()); });
    u.get("fuzzy maximum", [&] { return T(v.fuzzyOutput()->getMaximum()); });
    u.get("aggregation", [&] { return T((const void*)v.getAggregation()) + T((const void*)v.fuzzyOutput()->getAggregation()); });
    u.get("defuzzifier", [&] { return T((const void*)v.getDefuzzifier()); });
    // the fuzzy output has the name of the variable
    for (auto& f : u.setters)
        if (f.name == "name") {
            auto set = f.set;
            f.set = [set](Src& s) {
                auto r = set(s);
                r.push_back({"fuzzy name", r[0].second});
                return r;
            };
        }
    u.set("aggregation", [&](Src& s) {
        fl::SNorm* q = s.coin() ? build::snorm(s.oneOf(model::snorms())) : nullptr;
        s.coin() ? v.setAggregation(q) : v.fuzzyOutput()->setAggregation(q);
        return Subject::Values{{"aggregation", T((const void*)q) + T((const void*)q)}};
    });
    u.set("defuzzifier", [&](Src& s) {
        fl::Defuzzifier* q = s.coin() ? (fl::Defuzzifier*)new fl::Centroid : s.coin() ? (fl::Defuzzifier*)new fl::WeightedSum : nullptr;
        v.setDefuzzifier(q);
        return Subject::Values{{"defuzzifier", T((const void*)q)}};
    });
    fl::Triangle activated("t", 0, 1);
    auto degrees = [&] {
        std::string r = T(v.fuzzyOutput()->isEmpty());
        for (auto& t : v.fuzzyOutput()->terms())
            r += " " + T(t.getDegree());
        return r;
    };
    u.get("activations", degrees);
    u.set("activations", [&](Src& s) {
        std::string before = degrees();
        double d = s.num(0, 1);
        v.fuzzyOutput()->addTerm(&activated, d, nullptr);
        return Subject::Values{{"activations", "false" + before.substr(before.find('e') + 1) + " " + T(d)}};
    });
    u.set("clear", [&](Src& s) {
        v.clear();
        return Subject::Values{{"value", "nan"}, {"previous", "nan"}, {"activations", "true"}};
    });
    // copies have the same attributes
    u.finally = [&](Case& c) {
        fl::OutputVariable a(v), b;
        b = v;
        std::unique_ptr<fl::OutputVariable> d(v.clone());
        for (fl::OutputVariable* w : {&a, &b, d.get()}) {
            bool eq = w->getName() == v.getName() && w->getDescription() == v.getDescription() && w->isEnabled() == v.isEnabled() && w->isLockValueInRange() == v.isLockValueInRange()
                      && same(w->getMinimum(), v.getMinimum()) && same(w->getMaximum(), v.getMaximum()) && same(w->getValue(), v.getValue()) && same(w->getPreviousValue(), v.getPreviousValue())
                      && same(w->getDefaultValue(), v.getDefaultValue()) && w->isLockPreviousValue() == v.isLockPreviousValue() && w->fuzzyOutput()->getName() == v.fuzzyOutput()->getName()
                      && same(w->fuzzyOutput()->getMinimum(), v.fuzzyOutput()->getMinimum()) && same(w->fuzzyOutput()->getMaximum(), v.fuzzyOutput()->getMaximum())
                      && !w->getDefuzzifier() == !v.getDefuzzifier() && !w->getAggregation() == !v.getAggregation() && w->numberOfTerms() == v.numberOfTerms();
            c.check(eq, "copies", "a copy has other attributes: " + w->toString() + " and " + v.toString());
        }
    };
    exercise(c, u);
}

static void rules(Case& c) {
    Src& s = c.src;
    Subject u;
    switch (s.u(4)) {
        case 0: {
            fl::Rule r;
            u.what = "Rule";
            u.words("text", &r, &fl::Rule::getText, &fl::Rule::setText);
            u.flag("enabled", &r, &fl::Rule::isEnabled, &fl::Rule::setEnabled);
            u.number("weight", &r, &fl::Rule::getWeight, &fl::Rule::setWeight);
            u.number("degree", &r, &fl::Rule::getActivationDegree, &fl::Rule::setActivationDegree);
            u.flag("triggered", &r, &fl::Rule::isTriggered, &fl::Rule::setTriggered);
            u.get("antecedent", [&] { return T((const void*)r.getAntecedent()); });
            u.get("consequent", [&] { return T((const void*)r.getConsequent()); });
            u.get("loaded", [&] { return T(r.isLoaded()); });
            u.set("deactivate", [&](Src&) {
                r.deactivate();
                return Subject::Values{{"degree", "0"}, {"triggered", "false"}};
            });
            u.set("antecedent", [&](Src&) {
                fl::Antecedent* a = new fl::Antecedent;
                r.setAntecedent(a);
                return Subject::Values{{"antecedent", T((const void*)a)}};
            });
            u.set("consequent", [&](Src&) {
                fl::Consequent* a = new fl::Consequent;
                r.setConsequent(a);
                return Subject::Values{{"consequent", T((const void*)a)}};
            });
            exercise(c, u);
            return;
        }
        case 1: {  // a loaded rule
            EngineP e(fl::FllImporter().fromString("Engine: e\nInputVariable: i\n range: 0 1\n term: a Ramp 0 1\nOutputVariable: o\n range: 0 1\n term: b Ramp 0 1\nRuleBlock:\n rule: if i is a then o is b with 0.5\n"));
            fl::Rule& r = *e->getRuleBlock(0)->getRule(0);
            u.what = "Rule that is loaded";
            u.words("text", &r, &fl::Rule::getText, &fl::Rule::setText);
            u.flag("enabled", &r, &fl::Rule::isEnabled, &fl::Rule::setEnabled);
            u.number("weight", &r, &fl::Rule::getWeight, &fl::Rule::setWeight);
            u.number("degree", &r, &fl::Rule::getActivationDegree, &fl::Rule::setActivationDegree);
            u.flag("triggered", &r, &fl::Rule::isTriggered, &fl::Rule::setTriggered);
            u.get("loaded", [&] { return T(r.isLoaded()); });
            u.get("value", [&] { return T(e->getInputVariable(0)->getValue()); });
            u.set("value", [&](Src& s) {
                double v = scalar(s);
                e->setInputValue("i", v);
                return Subject::Values{{"value", T(v)}};
            });
            u.set("activate", [&](Src& s) {
                double v = s.num(0, 1), w = s.num(0, 1);
                r.setWeight(w);
                e->setInputValue("i", v);
                r.activateWith(nullptr, nullptr);
                return Subject::Values{{"degree", T(w * e->getInputVariable(0)->getTerm(0)->membership(v))}, {"weight", T(w)}, {"value", T(v)}};
            });
            u.set("deactivate", [&](Src&) {
                r.deactivate();
                return Subject::Values{{"degree", "0"}, {"triggered", "false"}};
            });
            exercise(c, u);
            return;
        }
        case 2: {
            fl::RuleBlock b;
            u.what = "RuleBlock";
            u.words("name", &b, &fl::RuleBlock::getName, &fl::RuleBlock::setName);
            u.words("description", &b, &fl::RuleBlock::getDescription, &fl::RuleBlock::setDescription);
            u.flag("enabled", &b, &fl::RuleBlock::isEnabled, &fl::RuleBlock::setEnabled);
            u.get("conjunction", [&] { return T((const void*)b.getConjunction()); });
            u.get("disjunction", [&] { return T((const void*)b.getDisjunction()); });
            u.get("implication", [&] { return T((const void*)b.getImplication()); });
            u.get("activation", [&] { return T((const void*)b.getActivation()); });
            u.get("rules", [&] { return T((int)b.numberOfRules()); });
            u.set("conjunction", [&](Src& s) { auto* q = s.coin() ? build::tnorm(s.oneOf(model::tnorms())) : nullptr; b.setConjunction(q); return Subject::Values{{"conjunction", T((const void*)q)}}; });
            u.set("disjunction", [&](Src& s) { auto* q = s.coin() ? build::snorm(s.oneOf(model::snorms())) : nullptr; b.setDisjunction(q); return Subject::Values{{"disjunction", T((const void*)q)}}; });
            u.set("implication", [&](Src& s) { auto* q = s.coin() ? build::tnorm(s.oneOf(model::tnorms())) : nullptr; b.setImplication(q); return Subject::Values{{"implication", T((const void*)q)}}; });
            u.set("activation", [&](Src& s) { fl::Activation* q = s.coin() ? (fl::Activation*)new fl::First(2, 0.5) : s.coin() ? (fl::Activation*)new fl::General : nullptr; b.setActivation(q); return Subject::Values{{"activation", T((const void*)q)}}; });
            u.set("rules", [&](Src& s) { b.addRule(new fl::Rule); return Subject::Values{{"rules", T((int)b.numberOfRules())}}; });
            exercise(c, u);
            return;
        }
        default: {
            fl::Engine e("e", "d");
            auto* i = new fl::InputVariable("i", 0, 1);
            auto* j = new fl::InputVariable("j", 0, 1);
            auto* o = new fl::OutputVariable("o", 0, 1);
            e.addInputVariable(i);
            e.addInputVariable(j);
            e.addOutputVariable(o);
            u.what = "Engine";
            u.words("name", &e, &fl::Engine::getName, &fl::Engine::setName);
            u.words("description", &e, &fl::Engine::getDescription, &fl::Engine::setDescription);
            u.get("i", [=] { return T(i->getValue()); });
            u.get("j", [=] { return T(j->getValue()); });
            u.get("o", [=, &e] { return T(o->getValue()) + T(e.getOutputValue("o")); });
            u.get("sizes", [&] { return strf("%d %d %d %d", (int)e.numberOfInputVariables(), (int)e.numberOfOutputVariables(), (int)e.numberOfRuleBlocks(), (int)e.variables().size()); });
            for (auto* v : {i, j})
                u.set(v->getName(), [v, &e](Src& s) {
                    double x = scalar(s);
                    e.setInputValue(v->getName(), x);
                    return Subject::Values{{v->getName(), T(x)}};
                });
            u.set("o", [=](Src& s) {
                double x = scalar(s);
                o->setValue(x);
                return Subject::Values{{"o", T(x) + T(x)}};
            });
            u.set("restart", [&](Src&) {
                e.restart();
                return Subject::Values{{"i", "nan"}, {"j", "nan"}, {"o", "nannan"}};
            });
            exercise(c, u);
        }
    }
}

template <class A>
static void twoNumbers(Case& c, const char* what) {
    A a;
    Subject u;
    u.what = what;
    u.integer("rules", &a, &A::getNumberOfRules, &A::setNumberOfRules, -1);
    u.number("threshold", &a, &A::getThreshold, &A::setThreshold);
    u.finally = [&](Case& c) {
        A b(a.getNumberOfRules(), a.getThreshold());
        std::unique_ptr<A> d(a.clone());
        c.check(a.parameters() == b.parameters() && a.parameters() == d->parameters() && d->getNumberOfRules() == a.getNumberOfRules() && same(d->getThreshold(), a.getThreshold()), "methods", a.parameters() + " but constructed " + b.parameters() + ", copied " + d->parameters());
    };
    exercise(c, u);
}
template <class A>
static void oneNumber(Case& c, const char* what) {
    A a;
    Subject u;
    u.what = what;
    u.integer("rules", &a, &A::getNumberOfRules, &A::setNumberOfRules, -1);
    u.finally = [&](Case& c) {
        A b(a.getNumberOfRules());
        std::unique_ptr<A> d(a.clone());
        c.check(a.parameters() == b.parameters() && a.parameters() == d->parameters() && d->getNumberOfRules() == a.getNumberOfRules(), "methods", a.parameters() + " but constructed " + b.parameters() + ", copied " + d->parameters());
    };
    exercise(c, u);
}
template <class A>
static void resolution(Case& c, const char* what) {
    A a;
    Subject u;
    u.what = what;
    u.integer("resolution", &a, &A::getResolution, &A::setResolution, 1);
    u.get("default", [] { return T(fl::IntegralDefuzzifier::defaultResolution()); });
    u.finally = [&](Case& c) {
        A b(a.getResolution());
        std::unique_ptr<A> d(a.clone());
        c.check(b.getResolution() == a.getResolution() && d->getResolution() == a.getResolution(), "methods", "constructed or copied with another resolution");
    };
    exercise(c, u);
}
template <class A>
static void weighted(Case& c, const char* what) {
    A a;
    Subject u;
    u.what = what;
    static const char* names[] = {"Automatic", "TakagiSugeno", "Tsukamoto"};
    static const typename A::Type types[] = {A::Automatic, A::TakagiSugeno, A::Tsukamoto};
    u.get("type", [&] { return T((int)a.getType()); });
    u.get("name", [&] { return a.getTypeName(); });
    u.set("type", [&](Src& s) {
        int k = s.u(3);
        a.setType(types[k]);
        return Subject::Values{{"type", T((int)types[k])}, {"name", names[k]}};
    });
    u.set("name", [&](Src& s) {
        int k = s.u(3);
        a.setType(std::string(names[k]));
        return Subject::Values{{"name", names[k]}, {"type", T((int)types[k])}};
    });
    u.set("wrong name", [&](Src& s) {
        bool raised = false;
        try {
            a.setType(s.oneOf(std::vector<std::string>{"automatic", "Mamdani", "", "Takagi-Sugeno"}));
        } catch (fl::Exception&) {
            raised = true;
        }
        return raised ? Subject::Values{} : Subject::Values{{"name", "an exception"}};
    });
    u.finally = [&](Case& c) {
        A b(a.getType()), d(std::string(a.getTypeName()));
        std::unique_ptr<A> e(a.clone());
        c.check(b.getType() == a.getType() && d.getType() == a.getType() && e->getType() == a.getType(), "methods", "constructed or copied with another type");
    };
    exercise(c, u);
}

static void methods(Case& c) {
    Src& s = c.src;
    switch (s.u(14)) {
        case 0: twoNumbers<fl::First>(c, "First"); return;
        case 1: twoNumbers<fl::Last>(c, "Last"); return;
        case 2: oneNumber<fl::Highest>(c, "Highest"); return;
        case 3: oneNumber<fl::Lowest>(c, "Lowest"); return;
        case 4: resolution<fl::Centroid>(c, "Centroid"); return;
        case 5: resolution<fl::Bisector>(c, "Bisector"); return;
        case 6: resolution<fl::SmallestOfMaximum>(c, "SmallestOfMaximum"); return;
        case 7: resolution<fl::MeanOfMaximum>(c, "MeanOfMaximum"); return;
        case 8: resolution<fl::LargestOfMaximum>(c, "LargestOfMaximum"); return;
        case 9: weighted<fl::WeightedAverage>(c, "WeightedAverage"); return;
        case 10: weighted<fl::WeightedSum>(c, "WeightedSum"); return;
        case 11: {
            fl::Threshold a;
            Subject u;
            u.what = "Threshold";
            static const char* names[] = {"<", "<=", "==", "!=", ">=", ">"};
            static const fl::Threshold::Comparison values[] = {fl::Threshold::LessThan, fl::Threshold::LessThanOrEqualTo, fl::Threshold::EqualTo, fl::Threshold::NotEqualTo, fl::Threshold::GreaterThanOrEqualTo, fl::Threshold::GreaterThan};
            u.number("value", &a, &fl::Threshold::getValue, &fl::Threshold::setValue);
            u.get("comparison", [&] { return T((int)a.getComparison()); });
            u.get("operator", [&] { return a.comparisonOperator(); });
            u.set("comparison", [&](Src& s) {
                int k = s.u(6);
                a.setComparison(values[k]);
                return Subject::Values{{"comparison", T((int)values[k])}, {"operator", names[k]}};
            });
            u.set("threshold", [&](Src& s) {
                int k = s.u(6);
                double v = scalar(s);
                s.coin() ? a.setThreshold(values[k], v) : a.setThreshold(std::string(names[k]), v);
                return Subject::Values{{"comparison", T((int)values[k])}, {"operator", names[k]}, {"value", T(v)}};
            });
            u.set("unknown operator", [&](Src& s) {
                bool raised = false;
                std::string n = s.oneOf(std::vector<std::string>{"=", "=>", "", "<>", "> ", "gt"});
                try {
                    s.coin() ? a.setThreshold(n, 0.75) : (void)a.parseComparison(n);
                } catch (fl::Exception&) {
                    raised = true;
                }
                return raised ? Subject::Values{} : Subject::Values{{"operator", "an exception for " + n}};
            });
            u.finally = [&](Case& c) {
                fl::Threshold b(a.getComparison(), a.getValue()), d(a.comparisonOperator(), a.getValue());
                std::unique_ptr<fl::Threshold> e(a.clone());
                c.check(b.parameters() == a.parameters() && d.parameters() == a.parameters() && e->parameters() == a.parameters() && b.getComparison() == a.getComparison() && d.getComparison() == a.getComparison(), "methods", "constructed or copied with other parameters than " + a.parameters());
                auto all = a.availableComparisonOperators();
                std::sort(all.begin(), all.end());
                c.check(all == std::vector<std::string>({"!=", "<", "<=", "==", ">", ">="}), "methods", "other operators are available");
                for (int k = 0; k < 6; ++k)
                    c.check(a.parseComparison(names[k]) == values[k] && a.comparisonOperator(values[k]) == names[k], "methods", std::string("operator ") + names[k]);
            };
            exercise(c, u);
            return;
        }
        case 12: {
            fl::TNormFunction t("a * b");
            fl::SNormFunction n("a + b");
            fl::HedgeFunction h("x * x");
            Subject u;
            u.what = "Functions of norms and hedges";
            auto part = [&](const char* name, std::function<std::string()> g, std::function<void(std::string)> f, const char* x, const char* y) {
                std::string m = name;
                std::vector<std::string> formulas{std::string("min(") + x + "," + y + ")", std::string(x) + " - " + y, std::string("0.5 * ") + x};
                u.get(m, [=] { return T(g()); });
                u.set(m, [=](Src& s) {
                    std::string v = s.oneOf(formulas);
                    f(v);
                    return Subject::Values{{m, T(v)}};
                });
                u.set("wrong " + m, [=](Src& s) {
                    bool raised = false;
                    try {
                        f(s.oneOf(std::vector<std::string>{"unknown", "(1", "1 +"}));
                    } catch (fl::Exception&) {
                        raised = true;
                    }
                    std::string after = g();
                    return raised ? Subject::Values{{m, T(after)}} : Subject::Values{{m, "an exception"}};
                });
            };
            part("tnorm", [&] { return t.getFormula(); }, [&](std::string f) { t.setFormula(f); }, "a", "b");
            part("snorm", [&] { return n.getFormula(); }, [&](std::string f) { n.setFormula(f); }, "a", "b");
            part("hedge", [&] { return h.getFormula(); }, [&](std::string f) { h.setFormula(f); }, "x", "x");
            exercise(c, u);
            return;
        }
        default: {
            fl::Benchmark b;
            static fl::Engine one("one"), two("two");
            Subject u;
            u.what = "Benchmark";
            typedef std::vector<std::vector<fl::scalar>> Matrix;
            auto show = [](const Matrix& m) {
                std::string r = "{";
                for (auto& x : m) {
                    for (auto y : x)
                        r += T(y) + " ";
                    r += "; ";
                }
                return r + "}";
            };
            auto gen = [](Src& s) {
                Matrix m;
                for (int n = s.range(0, 3); n > 0; --n) {
                    m.push_back({});
                    for (int k = s.range(0, 3); k > 0; --k)
                        m.back().push_back(scalar(s));
                }
                return m;
            };
            u.words("name", &b, &fl::Benchmark::getName, &fl::Benchmark::setName);
            u.number("tolerance", &b, &fl::Benchmark::getTolerance, &fl::Benchmark::setTolerance);
            u.get("engine", [&] { return T((const void*)b.getEngine()); });
            u.get("expected", [&] { return show(b.getExpected()); });
            u.get("obtained", [&] { return show(b.getObtained()); });
            u.get("times", [&] { return show({b.getTimes()}); });
            u.set("engine", [&](Src& s) { fl::Engine* e = s.coin() ? &one : &two; b.setEngine(e); return Subject::Values{{"engine", T((const void*)e)}}; });
            u.set("expected", [&](Src& s) { auto m = gen(s); b.setExpected(m); return Subject::Values{{"expected", show(m)}}; });
            u.set("obtained", [&](Src& s) { auto m = gen(s); b.setObtained(m); return Subject::Values{{"obtained", show(m)}}; });
            u.set("times", [&](Src& s) { auto m = gen(s); std::vector<fl::scalar> t = m.empty() ? std::vector<fl::scalar>() : m[0]; b.setTimes(t); return Subject::Values{{"times", show({t})}}; });
            u.set("reset", [&](Src& s) { b.reset(); return Subject::Values{{"obtained", show({})}, {"times", show({{}})}}; });
            exercise(c, u);
        }
    }
}

static void rest(Case& c) {
    Src& s = c.src;
    Subject u;
    switch (s.u(7)) {
        case 0: {
            fl::FllExporter x;
            fl::FllImporter y;
            u.what = "FllExporter and importer";
            u.words("indent", &x, &fl::FllExporter::getIndent, &fl::FllExporter::setIndent);
            u.words("separator", &x, &fl::FllExporter::getSeparator, &fl::FllExporter::setSeparator);
            u.words("importer's separator", &y, &fl::FllImporter::getSeparator, &fl::FllImporter::setSeparator);
            exercise(c, u);
            return;
        }
        case 1: {
            fl::FclExporter x;
            fl::JavaExporter j;
            u.what = "FclExporter and Java";
            u.words("indent", &x, &fl::FclExporter::getIndent, &fl::FclExporter::setIndent);
            u.flag("names", &j, &fl::JavaExporter::isUsingVariableNames, &fl::JavaExporter::setUsingVariableNames);
            exercise(c, u);
            return;
        }
        case 2: {
            fl::CppExporter x;
            u.what = "CppExporter";
            u.flag("namespace", &x, &fl::CppExporter::isUsingNamespace, &fl::CppExporter::setUsingNamespace);
            u.flag("names", &x, &fl::CppExporter::isUsingVariableNames, &fl::CppExporter::setUsingVariableNames);
            exercise(c, u);
            return;
        }
        case 3: {
            fl::FldExporter x;
            u.what = "FldExporter";
            u.words("separator", &x, &fl::FldExporter::getSeparator, &fl::FldExporter::setSeparator);
            u.flag("header", &x, &fl::FldExporter::exportsHeader, &fl::FldExporter::setExportHeader);
            u.flag("inputs", &x, &fl::FldExporter::exportsInputValues, &fl::FldExporter::setExportInputValues);
            u.flag("outputs", &x, &fl::FldExporter::exportsOutputValues, &fl::FldExporter::setExportOutputValues);
            exercise(c, u);
            return;
        }
        case 4: {
            fl::RScriptExporter x;
            u.what = "RScriptExporter";
            u.words("minimum", &x, &fl::RScriptExporter::getMinimumColor, &fl::RScriptExporter::setMinimumColor);
            u.words("maximum", &x, &fl::RScriptExporter::getMaximumColor, &fl::RScriptExporter::setMaximumColor);
            u.words("contour", &x, &fl::RScriptExporter::getContourColor, &fl::RScriptExporter::setContourColor);
            exercise(c, u);
            return;
        }
        case 5: {
            fl::Exception x("what");
            u.what = "Exception";
            u.words("what", &x, &fl::Exception::getWhat, &fl::Exception::setWhat);
            u.get("c", [&] { return T(std::string(x.what())); });
            for (auto& f : u.setters) {
                auto set = f.set;
                f.set = [set](Src& s) {
                    auto r = set(s);
                    r.push_back({"c", r[0].second});
                    return r;
                };
            }
            u.set("append", [&](Src& s) {
                std::string before = x.getWhat(), more = text(s);
                x.append(more);
                std::string after = x.getWhat();
                bool good = after.compare(0, before.size(), before) == 0 && after.find(more, before.size()) != std::string::npos;
                return good ? Subject::Values{{"what", T(after)}, {"c", T(after)}} : Subject::Values{{"what", T(before + more)}};
            });
            u.set("place", [&](Src& s) {
                std::string before = x.getWhat(), file = "somefile.cpp", function = "someFunction";
                int line = s.range(1, 999);
                x.append(file, line, function);
                std::string after = x.getWhat();
                bool good = after.compare(0, before.size(), before) == 0 && after.find(file, before.size()) != std::string::npos && after.find(std::to_string(line), before.size()) != std::string::npos
                            && after.find(function, before.size()) != std::string::npos;
                return good ? Subject::Values{{"what", T(after)}, {"c", T(after)}} : Subject::Values{{"what", T(before + file)}};
            });
            exercise(c, u);
            return;
        }
        default: {  // the settings of the library
            typedef fl::fuzzylite L;
            struct Restore {
                int d = L::decimals(), r = fl::IntegralDefuzzifier::defaultResolution();
                double m = L::macheps(), a = L::absoluteTolerance();
                std::ios_base::fmtflags f = L::scalarFormat();
                bool l = L::isLogging(), g = L::isDebugging();
                ~Restore() {
                    L::setDecimals(d);
                    L::setMachEps(m);
                    L::setAbsoluteTolerance(a);
                    L::setScalarFormat(f);
                    L::setLogging(l);
                    L::setDebugging(g);
                    fl::IntegralDefuzzifier::setDefaultResolution(r);
                }
            } restore;
            u.what = "Settings";
            u.get("decimals", [] { return T(L::decimals()); });
            u.set("decimals", [](Src& s) { int v = s.range(0, 15); L::setDecimals(v); return Subject::Values{{"decimals", T(v)}}; });
            u.get("macheps", [] { return T(double(L::macheps())); });
            u.set("macheps", [](Src& s) { double v = s.num(0, 1); L::setMachEps(v); return Subject::Values{{"macheps", T(v)}}; });
            u.get("tolerance", [] { return T(double(L::absoluteTolerance())); });
            u.set("tolerance", [](Src& s) { double v = s.num(0, 1); L::setAbsoluteTolerance(v); return Subject::Values{{"tolerance", T(v)}}; });
            u.get("format", [] { return T((int)L::scalarFormat()); });
            u.set("format", [](Src& s) {
                auto v = s.oneOf<std::ios_base::fmtflags>({std::ios_base::fixed, std::ios_base::scientific, std::ios_base::fmtflags(0)});
                L::setScalarFormat(v);
                return Subject::Values{{"format", T((int)v)}};
            });
            u.get("logging", [] { return T(L::isLogging()); });
            u.set("logging", [](Src& s) { bool v = s.coin(); L::setLogging(v); return Subject::Values{{"logging", T(v)}}; });
            u.get("debugging", [] { return T(L::isDebugging()); });
            u.set("debugging", [](Src& s) { bool v = s.coin(); L::setDebugging(v); return Subject::Values{{"debugging", T(v)}}; });
            u.get("resolution", [] { return T(fl::IntegralDefuzzifier::defaultResolution()); });
            u.get("new defuzzifier", [] { return T(fl::Centroid().getResolution()); });
            u.set("resolution", [](Src& s) { int v = s.range(1, 2000); fl::IntegralDefuzzifier::setDefaultResolution(v); return Subject::Values{{"resolution", T(v)}, {"new defuzzifier", T(v)}}; });
            exercise(c, u);
        }
    }
}

int main(int argc, char** argv) {
    std::string rule = "at least two attributes changed their values";
    return pbt::main(argc, argv, "P42", {
        {"terms", terms, 60000, 1500000, rule},
        {"variables", variables, 40000, 1000000, rule},
        {"rules", rules, 30000, 600000, rule},
        {"methods", methods, 30000, 600000, rule},
        {"rest", rest, 20000, 400000, rule},
    });
}
