// P32: factories construct, clone and list exactly what is registered.
#include "build.h"
#include <algorithm>
using namespace pbt;

typedef std::vector<std::string> Strings;
static std::string show(const Strings& v) {
    std::string r;
    for (auto& t : v)
        r += "<" + t + "> ";
    return r;
}

// Construction factories -----------------------------------------------------------------------------------------------

template <class T> struct Kind;
#define KIND(Factory_, Type, ...)                       \
    template <> struct Kind<fl::Type> {                 \
        typedef fl::Factory_ Factory;                   \
        static Strings shipped() { return __VA_ARGS__; } \
    };
KIND(TNormFactory, TNorm, {"AlgebraicProduct", "BoundedDifference", "DrasticProduct", "EinsteinProduct", "HamacherProduct", "Minimum", "NilpotentMinimum"})
KIND(SNormFactory, SNorm, {"AlgebraicSum", "BoundedSum", "DrasticSum", "EinsteinSum", "HamacherSum", "Maximum", "NilpotentMaximum", "NormalizedSum", "UnboundedSum"})
KIND(ActivationFactory, Activation, {"First", "General", "Highest", "Last", "Lowest", "Proportional", "Threshold"})
KIND(DefuzzifierFactory, Defuzzifier,
     {"Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum", "WeightedAverage", "WeightedSum"})
KIND(TermFactory, Term,
     {"Bell", "Binary", "Concave", "Constant", "Cosine", "Discrete", "Function", "Gaussian", "GaussianProduct", "Linear", "PiShape", "Ramp", "Rectangle", "SShape",
      "Sigmoid", "SigmoidDifference", "SigmoidProduct", "Spike", "Trapezoid", "Triangle", "ZShape"})
KIND(HedgeFactory, Hedge, {"any", "extremely", "not", "seldom", "somewhat", "very"})
#undef KIND

static std::string nameOf(const fl::TNorm* x) { return x ? x->className() : ""; }
static std::string nameOf(const fl::SNorm* x) { return x ? x->className() : ""; }
static std::string nameOf(const fl::Activation* x) { return x ? x->className() : ""; }
static std::string nameOf(const fl::Defuzzifier* x) { return x ? x->className() : ""; }
static std::string nameOf(const fl::Term* x) { return x ? x->className() : ""; }
static std::string nameOf(const fl::Hedge* x) { return x ? x->name() : ""; }

template <class T>
static void construction(Case& c) {
    typedef typename Kind<T>::Factory Factory;
    typedef typename fl::ConstructionFactory<T*>::Constructor Constructor;
    Src& s = c.src;
    const Strings shipped = Kind<T>::shipped();
    Factory original;
    std::map<std::string, Constructor> constructors;  // by class
    for (auto& n : shipped)
        constructors[n] = original.getConstructor(n);
    constructors[""] = nullptr;
    struct Pair {
        std::unique_ptr<Factory> factory;
        std::map<std::string, std::string> model;  // key to class, "" is none
        std::string name;
    };
    std::vector<Pair> pairs;
    auto fresh = [&] {
        Pair p;
        if (s.coin()) {
            p.name = s.oneOf<std::string>({"mine", "Kind", ""});
            p.factory.reset(new Factory(p.name));
        } else {
            p.factory.reset(new Factory);
            p.name = p.factory->name();
        }
        for (auto& n : shipped)
            p.model[n] = n;
        p.model[""] = "";
        pairs.push_back(std::move(p));
    };
    fresh();
    Strings keys = {"mine", "x", "", "MINE", " "};
    auto key = [&] { return s.coin() ? s.oneOf(keys) : s.oneOf(shipped); };
    auto audit = [&](Pair& p) {
        Strings got = p.factory->available(), want;
        for (auto& i : p.model)
            want.push_back(i.first);
        c.checkf(got == want, "available", [&] { return "available " + show(got) + "instead of " + show(want); });
        c.check(p.factory->name() == p.name, "name", "name is " + p.factory->name() + " instead of " + p.name);
        c.check(p.factory->constructors().size() == want.size() && const_cast<const Factory&>(*p.factory).constructors().size() == want.size(), "map", "size of the map");
    };
    auto probe = [&](Pair& p, const std::string& k) {
        auto it = p.model.find(k);
        bool has = it != p.model.end();
        c.check(p.factory->hasConstructor(k) == has, "has", "<" + k + "> is registered: " + (has ? "yes, but it says no" : "no, but it says yes"));
        Constructor got = p.factory->getConstructor(k);
        c.check((got != nullptr) == (has && !it->second.empty()), "get", "constructor of <" + k + ">");
        try {
            std::unique_ptr<T> a(p.factory->constructObject(k)), b(p.factory->constructObject(k));
            c.check(has, "unregistered", "<" + k + "> is not registered, but an object of <" + nameOf(a.get()) + "> was constructed");
            c.check(nameOf(a.get()) == it->second && nameOf(b.get()) == it->second, "class", "<" + k + "> constructs <" + nameOf(a.get()) + "> instead of <" + it->second + ">");
            c.check(!a || a != b, "same", "<" + k + "> constructs the same object twice");
        } catch (fl::Exception&) {
            c.check(!has, "exception", "<" + k + "> is registered but not constructed");
        }
    };
    for (auto& n : shipped)
        probe(pairs[0], n);
    audit(pairs[0]);
    int changes = 0;
    for (int steps = s.range(1, 14); steps > 0; --steps) {
        size_t at = s.u((uint32_t)pairs.size());
        switch (s.u(9)) {
            case 0:
            case 1: {
                std::string k = key(), n = s.chance(1, 5) ? "" : s.oneOf(shipped);
                c.note([&] { return strf("%zu: register <", at) + k + "> as <" + n + ">"; });
                pairs[at].factory->registerConstructor(k, constructors[n]);
                pairs[at].model[k] = n;
                ++changes;
                break;
            }
            case 2: {
                std::string k = key();
                c.note([&] { return strf("%zu: deregister <", at) + k + ">"; });
                pairs[at].factory->deregisterConstructor(k);
                pairs[at].model.erase(k);
                ++changes;
                break;
            }
            case 3: {
                if (pairs.size() >= 4)
                    break;
                c.note([&] { return strf("%zu: copy", at); });
                Pair p;
                if (s.coin())
                    p.factory.reset(pairs[at].factory->clone());
                else
                    p.factory.reset(new Factory(*pairs[at].factory));
                p.model = pairs[at].model;
                p.name = pairs[at].name;
                pairs.push_back(std::move(p));
                break;
            }
            case 4: {
                size_t to = s.u((uint32_t)pairs.size());
                c.note([&] { return strf("%zu: assigned to %zu", at, to); });
                *pairs[to].factory = *pairs[at].factory;
                pairs[to].model = pairs[at].model;
                pairs[to].name = pairs[at].name;
                break;
            }
            case 5: {
                if (pairs.size() < 2)
                    break;
                size_t to = (at + 1) % pairs.size();
                c.note([&] { return strf("%zu: moved to %zu", at, to); });
                if (s.coin())
                    *pairs[to].factory = std::move(*pairs[at].factory);
                else
                    pairs[to].factory.reset(new Factory(std::move(*pairs[at].factory)));
                pairs[to].model = pairs[at].model;
                pairs[to].name = pairs[at].name;
                pairs.erase(pairs.begin() + at);
                break;
            }
            case 6:
                if (pairs.size() < 4)
                    fresh();
                break;
            default: probe(pairs[at], key());
        }
        for (auto& p : pairs)
            audit(p);
    }
    c.nontrivial(changes > 0);
    for (auto& p : pairs)
        for (auto& k : keys)
            probe(p, k);
}

static void constructions(Case& c) {
    switch (c.src.u(6)) {
        case 0: return construction<fl::TNorm>(c);
        case 1: return construction<fl::SNorm>(c);
        case 2: return construction<fl::Activation>(c);
        case 3: return construction<fl::Defuzzifier>(c);
        case 4: return construction<fl::Term>(c);
        default: return construction<fl::Hedge>(c);
    }
}

// Constructed objects are in their default state, whatever was done to others; defuzzifiers with resolution and type
static void objects(Case& c) {
    Src& s = c.src;
    fl::DefuzzifierFactory d;
    std::string n = s.oneOf(Kind<fl::Defuzzifier>::shipped());
    int resolution = s.range(1, 2000);
    auto type = (fl::WeightedDefuzzifier::Type)s.u(3);
    int how = s.u(4);
    c.note([&] { return n + strf(" with resolution %d or type %d through %d", resolution, (int)type, how); });
    c.nontrivial(how != 0);
    std::unique_ptr<fl::Defuzzifier> before(d.constructObject(n));
    if (auto* i = dynamic_cast<fl::IntegralDefuzzifier*>(before.get()))
        i->setResolution(7);
    std::unique_ptr<fl::Defuzzifier> x(how == 0   ? d.constructObject(n)
                                       : how == 1 ? d.constructDefuzzifier(n, resolution, type)
                                       : how == 2 ? d.constructIntegral(n, resolution)
                                                  : d.constructWeighted(n, type));
    c.check(x && x->className() == n, "class", n + " constructs another class");
    if (auto* i = dynamic_cast<fl::IntegralDefuzzifier*>(x.get())) {
        int want = how == 0 ? fl::IntegralDefuzzifier::defaultResolution() : resolution;
        if (how != 3)
            c.check(i->getResolution() == want, "resolution", strf("resolution is %d instead of %d", i->getResolution(), want));
    } else {
        auto* w = dynamic_cast<fl::WeightedDefuzzifier*>(x.get());
        auto want = how == 1 || how == 3 ? type : fl::WeightedDefuzzifier::Automatic;
        c.check(w && w->getType() == want, "type", "type is " + std::string(w ? w->getTypeName() : "none"));
    }
    std::unique_ptr<fl::Defuzzifier> none(d.constructDefuzzifier("", resolution, type));
    c.check(!none, "none", "the empty name constructs a defuzzifier");
    // terms: two objects of the same class are independent
    fl::TermFactory t;
    std::string term = s.oneOf(Kind<fl::Term>::shipped());
    std::unique_ptr<fl::Term> a(t.constructObject(term)), b(t.constructObject(term));
    std::string text = b->toString(), parameters = b->parameters();
    a->setName("changed");
    a->setHeight(0.25);
    model::GenOptions o;
    model::Term spec = term == "Function" || term == "Linear" ? model::Term() : model::genTerm(s, term, "changed", 0, 1, o);
    if (!spec.cls.empty())
        a->configure(model::termParameters(spec));
    c.check(b->getName().empty() && b->getHeight() == 1 && b->parameters() == parameters && b->toString() == text, "independent", term + " is changed through another");
    std::unique_ptr<fl::Term> later(t.constructObject(term));
    c.check(later->toString() == text, "later", term + " is constructed as " + later->toString() + " instead of " + text);
    fl::ActivationFactory f;
    std::string activation = s.oneOf(Kind<fl::Activation>::shipped());
    std::unique_ptr<fl::Activation> u(f.constructObject(activation)), v(f.constructObject(activation));
    std::string was = v->parameters();
    u->configure(activation == "Threshold" ? "> 0.5" : activation == "First" || activation == "Last" ? "3 0.5" : activation == "Highest" || activation == "Lowest" ? "3" : "");
    std::unique_ptr<fl::Activation> w(f.constructObject(activation));
    c.check(v->parameters() == was && w->parameters() == was, "independent-activation", activation + " is changed through another");
}

// Cloning factories ----------------------------------------------------------------------------------------------------

struct Thing {
    static long live, made;
    int id;
    long serial;
    explicit Thing(int i) : id(i), serial(++made) { ++live; }
    ~Thing() { --live; }
    Thing* clone() const { return new Thing(id); }
    Thing(const Thing&) = delete;
};
long Thing::live = 0;
long Thing::made = 0;

static void cloning(Case& c) {
    typedef fl::CloningFactory<Thing*> Factory;
    Src& s = c.src;
    Thing::live = 0;
    struct Pair {
        std::unique_ptr<Factory> factory;
        std::map<std::string, int> model;  // 0 is none
        std::string name;
    };
    {
        std::vector<Pair> pairs;
        auto fresh = [&](const std::string& n) {
            Pair p;
            p.name = n;
            p.factory.reset(n.empty() ? new Factory : new Factory(n));
            pairs.push_back(std::move(p));
        };
        fresh("things");
        static const Strings keys = {"a", "b", "", "A", "ab"};
        int next = 0, changes = 0;
        for (int steps = s.range(1, 20); steps > 0; --steps) {
            size_t at = s.u((uint32_t)pairs.size());
            Pair& p = pairs[at];
            std::string k = s.oneOf(keys);
            switch (s.u(12)) {
                case 0:
                case 1:
                case 2: {
                    int id = s.chance(1, 8) ? 0 : ++next;
                    c.note([&] { return strf("%zu: register %d as <", at, id) + k + ">"; });
                    p.factory->registerObject(k, id ? new Thing(id) : nullptr);
                    p.model[k] = id;
                    ++changes;
                    break;
                }
                case 3: {
                    if (!p.model.count(k))
                        break;
                    c.note([&] { return strf("%zu: register again <", at) + k + ">"; });
                    p.factory->registerObject(k, p.factory->getObject(k));
                    break;
                }
                case 4: {
                    c.note([&] { return strf("%zu: deregister <", at) + k + ">"; });
                    p.factory->deregisterObject(k);
                    p.model.erase(k);
                    ++changes;
                    break;
                }
                case 5: {
                    if (pairs.size() >= 4)
                        break;
                    c.note([&] { return strf("%zu: copy", at); });
                    Pair q;
                    q.model = p.model;
                    q.name = p.name;
                    q.factory.reset(s.coin() ? p.factory->clone() : new Factory(*p.factory));
                    pairs.push_back(std::move(q));
                    break;
                }
                case 6: {
                    size_t to = s.u((uint32_t)pairs.size());
                    c.note([&] { return strf("%zu: assigned to %zu", at, to); });
                    *pairs[to].factory = *p.factory;
                    pairs[to].model = p.model;
                    pairs[to].name = p.name;
                    break;
                }
                case 7: {
                    if (pairs.size() < 2)
                        break;
                    size_t to = (at + 1) % pairs.size();
                    c.note([&] { return strf("%zu: moved to %zu", at, to); });
                    if (s.coin())
                        *pairs[to].factory = std::move(*p.factory);
                    else
                        pairs[to].factory.reset(new Factory(std::move(*p.factory)));
                    pairs[to].model = p.model;
                    pairs[to].name = p.name;
                    pairs.erase(pairs.begin() + at);
                    break;
                }
                case 8:
                    if (s.chance(1, 3)) {
                        c.note([&] { return strf("%zu: clear", at); });
                        p.factory->clear();
                        p.model.clear();
                    } else if (pairs.size() < 4)
                        fresh("");
                    break;
                default: {
                    auto it = p.model.find(k);
                    long live = Thing::live;
                    try {
                        std::unique_ptr<Thing> x(p.factory->cloneObject(k));
                        c.check(it != p.model.end(), "unregistered", "<" + k + "> is not registered but is cloned");
                        c.check((x ? x->id : 0) == it->second, "clone", strf("clone of <%s> is %d instead of %d", k.c_str(), x ? x->id : 0, it->second));
                        c.check(!x || (x.get() != p.factory->getObject(k) && Thing::live == live + 1), "new", "<" + k + "> is not cloned to a new object");
                    } catch (fl::Exception&) {
                        c.check(it == p.model.end(), "exception", "<" + k + "> is registered but not cloned");
                    }
                }
            }
            long total = 0;
            std::set<Thing*> all;
            for (auto& q : pairs) {
                Strings got = q.factory->available(), want;
                for (auto& i : q.model) {
                    want.push_back(i.first);
                    Thing* x = q.factory->getObject(i.first);
                    c.check((x ? x->id : 0) == i.second, "get", strf("<%s> is %d instead of %d", i.first.c_str(), x ? x->id : 0, i.second));
                    if (x) {
                        ++total;
                        c.check(all.insert(x).second, "shared", "<" + i.first + "> is shared");
                    }
                }
                for (auto& key : keys) {
                    c.check(q.factory->hasObject(key) == (q.model.count(key) > 0), "has", "registered <" + key + ">");
                    if (!q.model.count(key))
                        c.check(!q.factory->getObject(key), "get-none", "object of <" + key + ">");
                }
                c.check(got == want && q.factory->objects().size() == want.size(), "available", "available " + show(got) + "instead of " + show(want));
                c.check(q.factory->name() == q.name, "name", "name is " + q.factory->name() + " instead of " + q.name);
            }
            c.check(total == Thing::live, "live", strf("%ld objects live instead of %ld", Thing::live, total));
        }
        c.nontrivial(changes > 0 && pairs.size() > 1);
    }
    c.check(Thing::live == 0, "released", strf("%ld objects are left", Thing::live));
}

// Functions and operators ----------------------------------------------------------------------------------------------

struct Known {
    const char* name;
    double (*unary)(double);
    double (*binary)(double, double);
};
static const double eps = 1e-6;
static bool near(double a, double b) { return a == b || std::fabs(a - b) < eps || (a != a && b != b); }
static const std::vector<Known>& functions() {
    static const std::vector<Known> v = {
        {"abs", [](double x) { return std::fabs(x); }, 0}, {"acos", [](double x) { return std::acos(x); }, 0}, {"acosh", [](double x) { return std::acosh(x); }, 0},
        {"asin", [](double x) { return std::asin(x); }, 0}, {"asinh", [](double x) { return std::asinh(x); }, 0}, {"atan", [](double x) { return std::atan(x); }, 0},
        {"atan2", 0, [](double x, double y) { return std::atan2(x, y); }}, {"atanh", [](double x) { return std::atanh(x); }, 0},
        {"ceil", [](double x) { return std::ceil(x); }, 0}, {"cos", [](double x) { return std::cos(x); }, 0}, {"cosh", [](double x) { return std::cosh(x); }, 0},
        {"eq", 0, [](double x, double y) { return near(x, y) ? 1.0 : 0.0; }}, {"exp", [](double x) { return std::exp(x); }, 0},
        {"fabs", [](double x) { return std::fabs(x); }, 0}, {"floor", [](double x) { return std::floor(x); }, 0},
        {"fmod", 0, [](double x, double y) { return std::fmod(x, y); }}, {"ge", 0, [](double x, double y) { return near(x, y) || x > y ? 1.0 : 0.0; }},
        {"gt", 0, [](double x, double y) { return !near(x, y) && x > y ? 1.0 : 0.0; }}, {"le", 0, [](double x, double y) { return near(x, y) || x < y ? 1.0 : 0.0; }},
        {"log", [](double x) { return std::log(x); }, 0}, {"log10", [](double x) { return std::log10(x); }, 0}, {"log1p", [](double x) { return std::log1p(x); }, 0},
        {"lt", 0, [](double x, double y) { return !near(x, y) && x < y ? 1.0 : 0.0; }},
        {"max", 0, [](double x, double y) { return x != x || y != y ? model::NaN : x < y ? y : x; }},
        {"min", 0, [](double x, double y) { return x != x || y != y ? model::NaN : y < x ? y : x; }}, {"neq", 0, [](double x, double y) { return near(x, y) ? 0.0 : 1.0; }},
        {"pow", 0, [](double x, double y) { return std::pow(x, y); }},
        {"round", [](double x) { return x > 0 ? std::floor(x + 0.5) : std::ceil(x - 0.5); }, 0}, {"sin", [](double x) { return std::sin(x); }, 0},
        {"sinh", [](double x) { return std::sinh(x); }, 0}, {"sqrt", [](double x) { return std::sqrt(x); }, 0}, {"tan", [](double x) { return std::tan(x); }, 0},
        {"tanh", [](double x) { return std::tanh(x); }, 0}};
    return v;
}
static const std::vector<Known>& operators() {
    static const std::vector<Known> v = {
        {"!", [](double x) { return near(x, 1) ? 0.0 : 1.0; }, 0}, {"%", 0, [](double x, double y) { return std::fmod(x, y); }}, {"*", 0, [](double x, double y) { return x * y; }},
        {"+", 0, [](double x, double y) { return x + y; }}, {"-", 0, [](double x, double y) { return x - y; }}, {"/", 0, [](double x, double y) { return x / y; }},
        {"^", 0, [](double x, double y) { return std::pow(x, y); }}, {"and", 0, [](double x, double y) { return near(x, 1) && near(y, 1) ? 1.0 : 0.0; }},
        {"or", 0, [](double x, double y) { return near(x, 1) || near(y, 1) ? 1.0 : 0.0; }}, {"~", [](double x) { return -x; }, 0}};
    return v;
}

static double custom(double x, double y) { return x * 10 + y; }
static double custom1(double x) { return x * 3 + 1; }

static void elements(Case& c) {
    Src& s = c.src;
    typedef fl::Function::Element Element;
    std::unique_ptr<fl::FunctionFactory> f(new fl::FunctionFactory);
    std::string route;
    for (int n = s.u(3); n > 0; --n)
        switch (s.u(4)) {
            case 0:
                f.reset(f->clone());
                route += "clone ";
                break;
            case 1: {
                fl::FunctionFactory other("other");
                other = *f;
                f.reset(new fl::FunctionFactory(other));
                route += "assign ";
                break;
            }
            case 2: {
                std::unique_ptr<fl::FunctionFactory> other(new fl::FunctionFactory(std::move(*f)));
                f = std::move(other);
                route += "move ";
                break;
            }
            default: {
                fl::FunctionFactory other("other");
                other = std::move(*f);
                f.reset(other.clone());
                route += "move-assign ";
            }
        }
    Strings names, ops, all;
    for (auto& k : functions())
        names.push_back(k.name);
    for (auto& k : operators())
        ops.push_back(k.name);
    all = names;
    all.insert(all.end(), ops.begin(), ops.end());
    std::sort(all.begin(), all.end());
    auto lists = [&](const Strings& moreFunctions, const Strings& moreOperators) {
        auto sorted = [](Strings v, const Strings& more) {
            v.insert(v.end(), more.begin(), more.end());
            std::sort(v.begin(), v.end());
            return v;
        };
        c.check(f->availableFunctions() == sorted(names, moreFunctions), "functions", "functions are " + show(f->availableFunctions()));
        c.check(f->availableOperators() == sorted(ops, moreOperators), "operators", "operators are " + show(f->availableOperators()));
        Strings more = moreFunctions;
        more.insert(more.end(), moreOperators.begin(), moreOperators.end());
        c.check(f->available() == sorted(all, more), "available", "available are " + show(f->available()));
    };
    lists({}, {});
    bool op = s.coin();
    const Known& k = s.oneOf(op ? operators() : functions());
    double x = s.coin() ? s.num(-3, 3) : s.anyDouble(), y = s.coin() ? s.num(-3, 3) : s.chance(1, 3) ? x : s.anyDouble();
    c.note([&] { return route + k.name + strf("(%.17g, %.17g)", x, y); });
    c.nontrivial(!route.empty() || k.binary);
    Element* o = f->getObject(k.name);
    c.check(o, "object", std::string(k.name) + " is not registered");
    std::unique_ptr<Element> e(f->cloneObject(k.name));
    for (Element* p : {o, e.get()}) {
        c.check(p->name == k.name && p->isOperator() == op && p->isFunction() == !op && p->arity == (k.binary ? 2 : 1) && !p->description.empty(), "element",
                std::string(k.name) + " is " + p->toString());
        c.check((p->unary != nullptr) == (k.unary != nullptr) && (p->binary != nullptr) == (k.binary != nullptr), "method", std::string(k.name) + " has other methods");
        if (std::fabs(std::fabs(x - y) - eps) < 1e-12 || std::fabs(std::fabs(x - 1) - eps) < 1e-12 || std::fabs(std::fabs(y - 1) - eps) < 1e-12)
            continue;
        double got = k.binary ? p->binary(x, y) : p->unary(x), want = k.binary ? k.binary(x, y) : k.unary(x);
        c.check(same(got, want) || close(got, want, 1e-12, 0), "evaluate", std::string(k.name) + strf("(%.17g, %.17g) is %.17g and not %.17g", x, y, got, want));
    }
    c.check(e.get() != o, "same", "the object is given instead of a clone");
    e->name = "changed";
    c.check(o->name == k.name, "independent", "a change of the clone changes the registered");
    // precedence: ! ~, then ^, then * / %, then + -, then and, then or
    auto level = [](const std::string& n) { return n == "!" || n == "~" ? 6 : n == "^" ? 5 : n == "*" || n == "/" || n == "%" ? 4 : n == "+" || n == "-" ? 3 : n == "and" ? 2 : 1; };
    const Known &a = s.oneOf(operators()), &b = s.oneOf(operators());
    int pa = f->getObject(a.name)->precedence, pb = f->getObject(b.name)->precedence;
    auto sign = [](int v) { return (v > 0) - (v < 0); };
    c.check(sign(pa - pb) == sign(level(a.name) - level(b.name)), "precedence", std::string(a.name) + " and " + b.name);
    // registering more
    f->registerObject("tens", new Element("tens", "custom", Element::Function, &custom));
    f->registerObject("@", new Element("@", "custom", Element::Operator, &custom1, 100, 1));
    lists({"tens"}, {"@"});
    std::unique_ptr<Element> tens(f->cloneObject("tens"));
    c.check(tens->binary && !tens->unary && tens->arity == 2 && tens->binary(3, 4) == 34, "custom", "custom function");
    f->deregisterObject("tens");
    f->deregisterObject("@");
    lists({}, {});
    bool thrown = false;
    try {
        std::unique_ptr<Element> none(f->cloneObject("tens"));
    } catch (fl::Exception&) {
        thrown = true;
    }
    c.check(thrown, "deregistered", "a deregistered function is cloned");
}

// The registry of the library ------------------------------------------------------------------------------------------

static Strings snapshot(const fl::FactoryManager& m) {
    auto list = [](const Strings& v) { return show(v); };
    return {m.tnorm() ? list(m.tnorm()->available()) : "null",           m.snorm() ? list(m.snorm()->available()) : "null",
            m.activation() ? list(m.activation()->available()) : "null", m.defuzzifier() ? list(m.defuzzifier()->available()) : "null",
            m.term() ? list(m.term()->available()) : "null",             m.hedge() ? list(m.hedge()->available()) : "null",
            m.function() ? list(m.function()->available()) : "null"};
}

static void managers(Case& c) {
    Src& s = c.src;
    c.check(fl::FactoryManager::instance() && fl::FactoryManager::instance() == fl::FactoryManager::instance(), "instance", "the instance changes");
    std::vector<std::unique_ptr<fl::FactoryManager>> managers;
    std::vector<Strings> models;
    auto add = [&](fl::FactoryManager* m, const Strings& model) {
        managers.emplace_back(m);
        models.push_back(model);
    };
    const Strings global = snapshot(*fl::FactoryManager::instance());
    add(new fl::FactoryManager, global);
    if (s.coin())
        add(new fl::FactoryManager(nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr), Strings(7, "null"));
    auto check = [&] {
        for (size_t i = 0; i < managers.size(); ++i)
            c.checkf(snapshot(*managers[i]) == models[i], "registry", [&] { return strf("manager %zu has ", i) + show(snapshot(*managers[i])) + " instead of " + show(models[i]); });
        c.check(snapshot(*fl::FactoryManager::instance()) == global, "global", "the registry of the library changed");
    };
    check();
    bool copied = false, changed = false;
    for (int steps = s.range(1, 10); steps > 0; --steps) {
        size_t at = s.u((uint32_t)managers.size());
        fl::FactoryManager& m = *managers[at];
        switch (s.u(7)) {
            case 0: {
                if (managers.size() > 4)
                    break;
                c.note([&] { return strf("copy %zu", at); });
                Strings model = models[at];
                add(s.coin() ? m.clone() : new fl::FactoryManager(m), model);
                copied = true;
                break;
            }
            case 1: {
                size_t to = s.u((uint32_t)managers.size());
                c.note([&] { return strf("assign %zu to %zu", at, to); });
                *managers[to] = m;
                models[to] = models[at];
                copied = true;
                break;
            }
            case 2: {
                if (managers.size() < 2)
                    break;
                size_t to = (at + 1) % managers.size();
                c.note([&] { return strf("move %zu to %zu", at, to); });
                if (s.coin())
                    *managers[to] = std::move(m);
                else
                    managers[to].reset(new fl::FactoryManager(std::move(m)));
                models[to] = models[at];
                managers.erase(managers.begin() + at);
                models.erase(models.begin() + at);
                break;
            }
            case 3: {
                int which = s.u(7);
                bool none = s.coin();
                c.note([&] { return strf("set factory %d of %zu to %s", which, at, none ? "none" : "a new one"); });
                switch (which) {
                    case 0: m.setTnorm(none ? nullptr : new fl::TNormFactory); break;
                    case 1: m.setSnorm(none ? nullptr : new fl::SNormFactory); break;
                    case 2: m.setActivation(none ? nullptr : new fl::ActivationFactory); break;
                    case 3: m.setDefuzzifier(none ? nullptr : new fl::DefuzzifierFactory); break;
                    case 4: m.setTerm(none ? nullptr : new fl::TermFactory); break;
                    case 5: m.setHedge(none ? nullptr : new fl::HedgeFactory); break;
                    default: m.setFunction(none ? nullptr : new fl::FunctionFactory);
                }
                models[at][which] = none ? "null" : global[which];
                changed = true;
                break;
            }
            default: {
                std::string key = "custom" + std::to_string(s.u(3));
                int which = s.u(7);
                c.note([&] { return strf("register %s in factory %d of %zu", key.c_str(), which, at); });
                auto registered = [&](auto* factory, auto constructor) {
                    if (factory) {
                        factory->registerConstructor(key, constructor);
                        models[at][which] = show(factory->available());
                        c.check(models[at][which].find("<" + key + ">") != std::string::npos, "registered", key + " is not listed");
                    }
                };
                switch (which) {
                    case 0: registered(m.tnorm(), &fl::Minimum::constructor); break;
                    case 1: registered(m.snorm(), &fl::Maximum::constructor); break;
                    case 2: registered(m.activation(), &fl::First::constructor); break;
                    case 3: registered(m.defuzzifier(), &fl::Centroid::constructor); break;
                    case 4: registered(m.term(), &fl::Triangle::constructor); break;
                    case 5: registered(m.hedge(), &fl::Very::constructor); break;
                    default:
                        if (m.function()) {
                            m.function()->registerObject(key, new fl::Function::Element(key, "custom", fl::Function::Element::Function, &custom));
                            models[at][which] = show(m.function()->available());
                        }
                }
                changed = true;
            }
        }
        check();
    }
    c.nontrivial(copied && changed);
}

// What is registered in the library is understood in descriptions of engines, and nothing else
struct Tens : fl::Hedge {
    std::string name() const override { return "tenth"; }
    double hedge(double x) const override { return x / 10; }
    Tens* clone() const override { return new Tens(*this); }
    static fl::Hedge* constructor() { return new Tens; }
};
struct Half : fl::TNorm {
    std::string className() const override { return "Half"; }
    double compute(double a, double b) const override { return 0.5 * std::min(a, b); }
    Half* clone() const override { return new Half(*this); }
    static fl::TNorm* constructor() { return new Half; }
};
struct Flat : fl::Term {
    double value = 0;
    std::string className() const override { return "Flat"; }
    std::string parameters() const override { return fl::Op::str(value); }
    void configure(const std::string& p) override { value = p.empty() ? 0 : fl::Op::toScalar(p); }
    double membership(double) const override { return value; }
    Flat* clone() const override { return new Flat(*this); }
    static fl::Term* constructor() { return new Flat; }
};

static void custom_(Case& c) {
    Src& s = c.src;
    fl::FactoryManager& m = *fl::FactoryManager::instance();
    struct Restore {
        fl::FactoryManager& m;
        ~Restore() {
            m.hedge()->deregisterConstructor("tenth");
            m.tnorm()->deregisterConstructor("Half");
            m.term()->deregisterConstructor("Flat");
            m.function()->deregisterObject("tens");
        }
    } restore{m};
    bool useHedge = s.coin(), useNorm = s.coin(), useTerm = s.coin(), useFunction = s.coin();
    bool hedge = !s.chance(1, 5), norm = !s.chance(1, 5), term = !s.chance(1, 5), function = !s.chance(1, 5);
    if (hedge)
        m.hedge()->registerConstructor("tenth", &Tens::constructor);
    if (norm)
        m.tnorm()->registerConstructor("Half", &Half::constructor);
    if (term)
        m.term()->registerConstructor("Flat", &Flat::constructor);
    if (function)
        m.function()->registerObject("tens", new fl::Function::Element("tens", "custom", fl::Function::Element::Function, &custom));
    bool understood = (hedge || !useHedge) && (norm || !useNorm) && (term || !useTerm) && (function || !useFunction);
    double flat = s.u(1001) / 1000.0, x = s.u(1001) / 1000.0, y = s.u(1001) / 1000.0;
    c.nontrivial(useHedge || useNorm || useTerm || useFunction);
    std::string text = "Engine: custom\nInputVariable: x\n  enabled: true\n  range: 0.000 1.000\n  lock-range: false\n  term: a " +
                       (useTerm ? "Flat " + strf("%.3f", flat) : std::string("Ramp 0.000 1.000")) +
                       "\nInputVariable: y\n  enabled: true\n  range: 0.000 1.000\n  lock-range: false\n  term: b Ramp 0.000 1.000\n"
                       "OutputVariable: z\n  enabled: true\n  range: 0.000 100.000\n  lock-range: false\n  aggregation: none\n  defuzzifier: WeightedSum TakagiSugeno\n"
                       "  default: nan\n  lock-previous: false\n  term: k " +
                       (useFunction ? "Function tens(2.000,y)" : "Constant 24.000") +
                       "\nRuleBlock: \n  enabled: true\n  conjunction: " + (useNorm ? "Half" : "Minimum") +
                       "\n  disjunction: none\n  implication: none\n  activation: General\n  rule: if x is " + (useHedge ? "tenth a" : "a") + " and y is b then z is k\n";
    c.note([&] { return text + strf("x = %g, y = %g; registered hedge %d, norm %d, term %d, function %d", x, y, hedge, norm, term, function); });
    auto run = [&](fl::Engine& e) {
        double a = useTerm ? flat : x, k = useFunction ? 20 + y : 24;
        if (useHedge)
            a /= 10;
        double want = std::min(a, y) * (useNorm ? 0.5 : 1) * k;
        e.setInputValue("x", x);
        e.setInputValue("y", y);
        e.process();
        double got = e.getOutputValue("z");
        c.check(same(got, want) || close(got, want, 1e-9, 1e-9) || (want == 0 && got != got), "value", "output is " + str(got) + " and not " + str(want));
    };
    try {
        EngineP e(fl::FllImporter().fromString(text));
        if (useHedge && !hedge) {  // a rule that is not understood is kept, but not loaded
            c.check(!e->getRuleBlock(0)->getRule(0)->isLoaded(), "loaded", "the rule is loaded with an unregistered hedge");
            return;
        }
        c.check(understood, "accepted", "a description with something unregistered is accepted");
        run(*e);
        std::string again = fl::FllExporter().toString(e.get());
        EngineP second(fl::FllImporter().fromString(again));
        c.check(fl::FllExporter().toString(second.get()) == again, "round-trip", "exports to another text: " + again);
        run(*second);
        EngineP copy(e->clone());
        run(*copy);
    } catch (fl::Exception& e) {
        c.check(!understood, "rejected", std::string("rejected: ") + e.what());
    }
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P32",
                     {{"construction", constructions, 20000, 400000, "the history registers or deregisters"},
                      {"objects", objects, 20000, 400000, "a resolution or type is given"},
                      {"cloning", cloning, 30000, 800000, "the history registers or deregisters, and has copies"},
                      {"elements", elements, 10000, 300000, "a factory is copied, or the element is binary"},
                      {"managers", managers, 5000, 120000, "a copy and a change are made"},
                      {"custom", custom_, 10000, 300000, "something registered by the case is used"}});
}
