#include "model.h"

#include <algorithm>

namespace model {
    const double NaN = std::numeric_limits<double>::quiet_NaN();
    const double Inf = std::numeric_limits<double>::infinity();
    bool fragile = false;

    int cmp(double a, double b) {
        if (std::isnan(a) || std::isnan(b))
            return 2;
        if (a == b)
            return 0;
        double d = a - b, ad = std::fabs(d);
        if (ad <= 1e-9)
            return 0;
        if (ad < 1e-5)
            fragile = true;
        return d < 0 ? -1 : 1;
    }

    // ---------------------------------------------------------------- formulas
    ExprP number(double v) {
        auto e = std::make_shared<Expr>();
        e->kind = Expr::Number;
        e->value = v;
        return e;
    }
    ExprP variable(const std::string& n) {
        auto e = std::make_shared<Expr>();
        e->kind = Expr::Variable;
        e->name = n;
        return e;
    }
    ExprP node(Expr::Kind k, const std::string& n, std::vector<ExprP> args) {
        auto e = std::make_shared<Expr>();
        e->kind = k;
        e->name = n;
        e->args = std::move(args);
        return e;
    }

    static double bval(bool b) { return b ? 1.0 : 0.0; }

    double eval(const ExprP& e, const Env& env) {
        switch (e->kind) {
            case Expr::Number: return e->value;
            case Expr::Variable: {
                auto it = env.find(e->name);
                return it == env.end() ? NaN : it->second;
            }
            case Expr::Unary: {
                double a = eval(e->args[0], env);
                if (e->name == "!")
                    return bval(!eq(a, 1.0));
                return -a;
            }
            case Expr::Binary: {
                double a = eval(e->args[0], env), b = eval(e->args[1], env);
                if (e->name == "+") return a + b;
                if (e->name == "-") return a - b;
                if (e->name == "*") return a * b;
                if (e->name == "/") return a / b;
                if (e->name == "%") return std::fmod(a, b);
                if (e->name == "^") return std::pow(a, b);
                if (e->name == "and") return bval(eq(a, 1.0) && eq(b, 1.0));
                if (e->name == "or") return bval(eq(a, 1.0) || eq(b, 1.0));
                return NaN;
            }
            case Expr::Call: {
                const std::string& f = e->name;
                double a = eval(e->args[0], env), b = e->args.size() > 1 ? eval(e->args[1], env) : NaN;
                if (f == "abs" || f == "fabs") return std::fabs(a);
                if (f == "acos") return std::acos(a);
                if (f == "asin") return std::asin(a);
                if (f == "atan") return std::atan(a);
                if (f == "atan2") return std::atan2(a, b);
                if (f == "ceil") return std::ceil(a);
                if (f == "cos") return std::cos(a);
                if (f == "cosh") return std::cosh(a);
                if (f == "exp") return std::exp(a);
                if (f == "floor") return std::floor(a);
                if (f == "fmod") return std::fmod(a, b);
                if (f == "log") return std::log(a);
                if (f == "log10") return std::log10(a);
                if (f == "log1p") return std::log1p(a);
                if (f == "acosh") return std::acosh(a);
                if (f == "asinh") return std::asinh(a);
                if (f == "atanh") return std::atanh(a);
                if (f == "max") return std::isnan(a) || std::isnan(b) ? NaN : std::max(a, b);
                if (f == "min") return std::isnan(a) || std::isnan(b) ? NaN : std::min(a, b);
                if (f == "pow") return std::pow(a, b);
                if (f == "round") {
                    if (std::fabs(a) <= 0.5)
                        fragile = true;  // sign of zero
                    return std::round(a);
                }
                if (f == "sin") return std::sin(a);
                if (f == "sinh") return std::sinh(a);
                if (f == "sqrt") return std::sqrt(a);
                if (f == "tan") return std::tan(a);
                if (f == "tanh") return std::tanh(a);
                if (f == "eq") return bval(eq(a, b) || (std::isnan(a) && std::isnan(b)));
                if (f == "neq") return bval(!(eq(a, b) || (std::isnan(a) && std::isnan(b))));
                if (f == "gt") return bval(gt(a, b));
                if (f == "ge") return bval(ge(a, b) || (std::isnan(a) && std::isnan(b)));
                if (f == "lt") return bval(lt(a, b));
                if (f == "le") return bval(le(a, b) || (std::isnan(a) && std::isnan(b)));
                return NaN;
            }
        }
        return NaN;
    }

    static int precedence(const ExprP& e) {
        if (e->kind == Expr::Unary) return 100;
        if (e->kind == Expr::Binary) {
            const std::string& n = e->name;
            if (n == "^") return 90;
            if (n == "*" || n == "/" || n == "%") return 80;
            if (n == "+" || n == "-") return 70;
            if (n == "and") return 60;
            return 50;
        }
        return 1000;
    }

    std::string infix(const ExprP& e, Src* s) {
        auto wrap = [&](const ExprP& c, bool need) {
            std::string t = infix(c, s);
            if (!need && s && s->chance(1, 8))
                need = true;
            if (!need)
                return t;
            return (s && s->chance(1, 4)) ? "( " + t + " )" : "(" + t + ")";
        };
        switch (e->kind) {
            case Expr::Number: {
                std::string n = num(e->value, 6);
                if (n.find('.') != std::string::npos) {
                    while (n.back() == '0')
                        n.pop_back();
                    if (n.back() == '.')
                        n.pop_back();
                }
                return n;
            }
            case Expr::Variable: return e->name;
            case Expr::Unary: {
                bool need = e->args[0]->kind == Expr::Binary;
                return e->name + (s && s->coin() ? "" : " ") + wrap(e->args[0], need);
            }
            case Expr::Binary: {
                int p = precedence(e), l = precedence(e->args[0]), r = precedence(e->args[1]);
                bool rightAssoc = e->name == "^";
                bool needL = l < p || (l == p && rightAssoc);
                bool needR = r < p || (r == p && !rightAssoc);
                std::string a = wrap(e->args[0], needL), b = wrap(e->args[1], needR);
                bool word = e->name == "and" || e->name == "or";
                if (s && !word && s->coin())
                    return a + e->name + b;
                return a + " " + e->name + " " + b;
            }
            default: {
                std::string r = e->name + (s && s->chance(1, 4) ? " (" : "(");
                for (size_t i = 0; i < e->args.size(); ++i)
                    r += (i ? (s && s->coin() ? "," : ", ") : "") + infix(e->args[i], s);
                return r + ")";
            }
        }
    }

    ExprP genTameFormula(Src& s, const std::vector<std::string>& vars, int depth) {
        int k = depth <= 0 ? (int)s.u(2) : (int)s.u(9);
        switch (k) {
            case 0: return number(s.num(0, 5));
            case 1: return vars.empty() ? number(s.num(0, 5)) : variable(s.oneOf(vars));
            case 2: return node(Expr::Binary, "+", {genTameFormula(s, vars, depth - 1), genTameFormula(s, vars, depth - 1)});
            case 3: return node(Expr::Binary, "-", {genTameFormula(s, vars, depth - 1), genTameFormula(s, vars, depth - 1)});
            case 4: return node(Expr::Binary, "*", {genTameFormula(s, vars, depth - 1), genTameFormula(s, vars, depth - 1)});
            case 5: return node(Expr::Binary, "/", {genTameFormula(s, vars, depth - 1), number(s.num(0.5, 9))});
            case 6: {
                static const std::vector<std::string> f = {"abs", "sin", "cos", "atan", "tanh"};
                return node(Expr::Call, s.oneOf(f), {genTameFormula(s, vars, depth - 1)});
            }
            case 7:
                return node(
                    Expr::Call, s.coin() ? "min" : "max", {genTameFormula(s, vars, depth - 1), genTameFormula(s, vars, depth - 1)}
                );
            default: return node(Expr::Unary, "~", {genTameFormula(s, vars, depth - 1)});
        }
    }

    // ---------------------------------------------------------------- catalogues
    const std::vector<std::string>& tnorms() {
        static const std::vector<std::string> v = {"Minimum",       "AlgebraicProduct", "BoundedDifference", "DrasticProduct",
                                                   "EinsteinProduct", "HamacherProduct", "NilpotentMinimum"};
        return v;
    }
    const std::vector<std::string>& snorms() {
        static const std::vector<std::string> v = {"Maximum",     "AlgebraicSum", "BoundedSum",       "DrasticSum",   "EinsteinSum",
                                                   "HamacherSum", "NilpotentMaximum", "NormalizedSum", "UnboundedSum"};
        return v;
    }
    const std::vector<std::string>& hedges() {
        static const std::vector<std::string> v = {"not", "very", "somewhat", "extremely", "seldom"};
        return v;
    }
    const std::vector<std::string>& integralDefuzzifiers() {
        static const std::vector<std::string> v = {"Centroid", "Bisector", "MeanOfMaximum", "SmallestOfMaximum", "LargestOfMaximum"};
        return v;
    }
    const std::vector<std::string>& mamdaniTerms() {
        static const std::vector<std::string> v
            = {"Triangle", "Trapezoid", "Ramp",    "Rectangle", "Gaussian",        "Bell",   "Binary",
               "Concave",  "Cosine",    "Discrete", "GaussianProduct", "PiShape",  "SShape", "Sigmoid",
               "SigmoidDifference", "SigmoidProduct", "Spike", "ZShape"};
        return v;
    }
    const std::vector<std::string>& monotonicTerms() {
        static const std::vector<std::string> v = {"Ramp", "SShape", "ZShape", "Sigmoid", "Concave"};
        return v;
    }
    bool isMonotonic(const std::string& cls) {
        const auto& v = monotonicTerms();
        return std::find(v.begin(), v.end(), cls) != v.end();
    }
    bool isTakagiSugeno(const std::string& cls) { return cls == "Constant" || cls == "Linear" || cls == "Function"; }

    const Variable* Engine::find(const std::string& n) const {
        for (auto& v : inputs)
            if (v.name == n)
                return &v;
        for (auto& v : outputs)
            if (v.name == n)
                return &v;
        return nullptr;
    }

    // ---------------------------------------------------------------- rendering
    int precision = 3;
    std::string num(double v, int decimals) {
        if (decimals < 0)
            decimals = precision;
        if (std::isnan(v)) return "nan";
        if (std::isinf(v)) return v > 0 ? "inf" : "-inf";
        char b[400];
        snprintf(b, sizeof b, "%.*f", decimals, v);
        return b;
    }

    std::string spell(Src& s, double v) {
        std::string t = num(v);
        if (!std::isfinite(v))
            return t;
        switch (s.u(6)) {
            case 1:  // no trailing zeros
                while (t.back() == '0' && t.find('.') != std::string::npos)
                    t.pop_back();
                if (t.back() == '.')
                    t.pop_back();
                return t == "-0" ? "0" : t;
            case 2: return t.find('.') == std::string::npos ? t : t + "000";
            case 3: return v >= 0 ? "+" + t : t;
            case 4: {  // with an exponent
                char b[64];
                snprintf(b, sizeof b, s.coin() ? "%.*e" : "%.*E", 17, std::strtod(t.c_str(), nullptr));
                return b;
            }
            case 5:  // no leading zero
                return t.compare(0, 2, "0.") == 0 ? t.substr(1) : t.compare(0, 3, "-0.") == 0 ? "-" + t.substr(2) : t;
            default: return t;
        }
    }

    std::string propText(const Proposition& p) {
        std::string r = p.var + " is";
        for (auto& h : p.hedges)
            r += " " + h;
        if (!p.term.empty())
            r += " " + p.term;
        return r;
    }

    // "and" binds stronger than "or"; both associate to the left
    std::string condText(const CondP& c, Src* s, int parent, bool rightChild) {
        std::string r;
        bool need = false;
        if (c->op.empty())
            r = propText(c->prop);
        else {
            int p = c->op == "and" ? 2 : 1;
            r = condText(c->left, s, p, false) + " " + c->op + " " + condText(c->right, s, p, true);
            need = p < parent || (p == parent && rightChild);
        }
        if (!need && s && s->chance(1, 6))
            need = true;
        if (!need)
            return r;
        return s && s->chance(1, 3) ? "( " + r + " )" : "(" + r + ")";
    }

    std::string ruleText(const Rule& rule, Src* s) {
        std::string r = "if " + condText(rule.antecedent, s) + " then ";
        for (size_t i = 0; i < rule.consequent.size(); ++i)
            r += (i ? " and " : "") + propText(rule.consequent[i]);
        if (rule.weight != 1.0 || (s && s->chance(1, 8)))
            r += " with " + num(rule.weight);
        return r;
    }

    std::string termParameters(const Term& t) {
        std::string r;
        auto add = [&](const std::string& x) { r += (r.empty() ? "" : " ") + x; };
        if (t.cls == "Function")
            return t.formulaText;
        if (t.cls == "Discrete")
            for (auto& p : t.xy) {
                add(num(p.first));
                add(num(p.second));
            }
        else
            for (double p : t.p)
                add(num(p));
        if (t.height != 1.0 && t.cls != "Constant" && t.cls != "Linear")
            add(num(t.height));
        return r;
    }

    std::string describe(const Term& t) { return "term: " + t.name + " " + t.cls + " " + termParameters(t); }

    std::string describe(const Engine& e) {
        std::ostringstream o;
        o << "engine " << e.name << "\n";
        auto var = [&](const Variable& v) {
            o << (v.output ? "output " : "input ") << v.name << (v.enabled ? "" : " DISABLED") << " range " << num(v.min) << " "
              << num(v.max) << (v.lockRange ? " lock-range" : "");
            if (v.output)
                o << " aggregation " << v.aggregation << " defuzzifier " << v.defuzzifier << " " << v.resolution << " "
                  << v.weightedType << " default " << num(v.defaultValue) << (v.lockPrevious ? " lock-previous" : "");
            o << "\n";
            for (auto& t : v.terms)
                o << "  " << describe(t) << "\n";
        };
        for (auto& v : e.inputs)
            var(v);
        for (auto& v : e.outputs)
            var(v);
        for (auto& b : e.blocks) {
            o << "block " << b.name << (b.enabled ? "" : " DISABLED") << " conj " << b.conjunction << " disj " << b.disjunction
              << " impl " << b.implication << " activation " << b.activation.cls << " " << b.activation.n << " "
              << b.activation.comparison << " " << num(b.activation.threshold) << "\n";
            for (auto& r : b.rules)
                o << "  " << (r.enabled ? "" : "DISABLED ") << (r.text.empty() ? ruleText(r) : r.text) << "\n";
        }
        return o.str();
    }

    // ---------------------------------------------------------------- generators
    std::string genName(Src& s, std::set<std::string>& used) {
        static const std::vector<std::string> pool
            = {"a",    "low",   "high",  "temp", "Power", "in_1",  "obstacle", "X2",   "mid",   "b",
               "LOUD", "speed", "_v",    "t3",   "Angle", "med_9", "near",     "far_", "Zulu",  "c0",
               "tip",  "food",  "rate1", "Q",    "left",  "right", "NB",       "PS",   "ze",    "omega"};
        std::string n = s.oneOf(pool);
        int k = 2;
        std::string m = n;
        while (used.count(m))
            m = n + std::to_string(k++);
        used.insert(m);
        return m;
    }

    static std::string genDescription(Src& s, const std::string& plain, const GenOptions& o) {
        static const std::vector<std::string> pool = {"a: b", "speed: in km/h, at most: 3", "with \"quotes\" and : colons", "x", "1 2 3", "range: 0 1", "enabled: false",
            "Engine: other", "100% of 'it'", "term: a Triangle 0 1 2", "if a is b then c is d", "none", "back\\slash", "a  b   c", "\xc3\xa9t\xc3\xa9", ":", "RuleBlock: x"};
        return o.wildDescriptions && s.coin() ? s.oneOf(pool) : plain;
    }

    static double r3(double x) { return std::round(x * 1000) / 1000; }

    // k sorted values with at least 0.001 between them (when strict)
    static std::vector<double> sorted(Src& s, size_t k, double lo, double hi, bool strict) {
        std::vector<double> v;
        for (size_t i = 0; i < k; ++i)
            v.push_back(s.num(lo, hi));
        std::sort(v.begin(), v.end());
        if (strict)
            for (size_t i = 1; i < k; ++i)
                if (v[i] < v[i - 1] + 0.0005)
                    v[i] = r3(v[i - 1] + std::max(0.002, r3((hi - lo) / 16)));
        for (double& x : v)
            x = r3(x);
        return v;
    }

    Term genTerm(Src& s, const std::string& cls, const std::string& name, double lo, double hi, const GenOptions& o) {
        Term t;
        t.cls = cls;
        t.name = name;
        double w = hi - lo;
        double a = r3(lo - w / 4), b = r3(hi + w / 4);
        auto width = [&]() { return std::max(0.01, r3(s.num(w / 20, w))); };
        if (cls == "Bell")
            t.p = {s.num(lo, hi), width(), s.num(0.5, 6)};
        else if (cls == "Binary") {
            double st = s.num(lo, hi);
            int k = (int)s.u(o.infiniteTerms ? 4 : 2);
            t.p = {st, k == 0 ? r3(st + width()) : k == 1 ? r3(st - width()) : k == 2 ? Inf : -Inf};
        } else if (cls == "Concave") {
            double i = s.num(lo, hi), ww = width();
            t.p = {i, r3(s.coin() ? i - ww : i + ww)};
        } else if (cls == "Constant")
            t.p = {s.num(lo, hi)};
        else if (cls == "Cosine")
            t.p = {s.num(lo, hi), width()};
        else if (cls == "Discrete") {
            int n = s.range(2, 7);
            for (double x : sorted(s, n, a, b, true))
                t.xy.push_back({x, r3(s.num(0, 1))});
        } else if (cls == "Gaussian")
            t.p = {s.num(lo, hi), width()};
        else if (cls == "GaussianProduct") {
            auto v = sorted(s, 2, lo, hi, false);
            t.p = {v[0], width(), v[1], width()};
            if (s.chance(1, 8))
                std::swap(t.p[0], t.p[2]);
        } else if (cls == "PiShape")
            t.p = sorted(s, 4, a, b, true);
        else if (cls == "Ramp") {
            t.p = sorted(s, 2, a, b, true);
            if (s.coin())
                std::swap(t.p[0], t.p[1]);
        } else if (cls == "Rectangle")
            t.p = sorted(s, 2, a, b, false);
        else if (cls == "SShape" || cls == "ZShape")
            t.p = sorted(s, 2, a, b, true);
        else if (cls == "Sigmoid") {
            double sl = std::max(0.02, r3(s.num(1, 20) / w));
            t.p = {s.num(lo, hi), s.coin() ? -sl : sl};
        } else if (cls == "SigmoidDifference") {
            auto v = sorted(s, 2, lo, hi, false);
            t.p = {v[0], std::max(0.02, r3(s.num(1, 20) / w)), std::max(0.02, r3(s.num(1, 20) / w)), v[1]};
        } else if (cls == "SigmoidProduct") {
            auto v = sorted(s, 2, lo, hi, false);
            t.p = {v[0], std::max(0.02, r3(s.num(1, 20) / w)), -std::max(0.02, r3(s.num(1, 20) / w)), v[1]};
        } else if (cls == "Spike")
            t.p = {s.num(lo, hi), width()};
        else if (cls == "Trapezoid") {
            t.p = sorted(s, 4, a, b, false);
            if (o.infiniteTerms && s.chance(1, 10))
                t.p[0] = -Inf;
            if (o.infiniteTerms && s.chance(1, 10))
                t.p[3] = Inf;
        } else if (cls == "Triangle") {
            t.p = sorted(s, 3, a, b, false);
            if (o.infiniteTerms && s.chance(1, 10))
                t.p[0] = -Inf;
            if (o.infiniteTerms && s.chance(1, 10))
                t.p[2] = Inf;
        }
        for (double& x : t.p)
            x = r3(x);
        if (o.heights && s.chance(1, 5))
            t.height = s.oneOf(std::vector<double>{0.5, 0.75, 0.9, 0.25, 0.001, 0.333});
        if (o.tall && s.chance(1, 12))
            t.height = s.oneOf(std::vector<double>{1.5, 2, 10});
        return t;
    }

    Term genMamdaniTerm(Src& s, const std::string& name, double lo, double hi, const GenOptions& o) {
        return genTerm(s, s.oneOf(mamdaniTerms()), name, lo, hi, o);
    }

    static std::vector<std::string> genHedges(Src& s, int max) {
        std::vector<std::string> r;
        int n = s.chance(1, 3) ? s.range(1, max) : 0;
        for (int i = 0; i < n; ++i)
            r.push_back(s.oneOf(hedges()));
        return r;
    }

    CondP genCond(Src& s, const std::vector<const Variable*>& vars, int depth, const GenOptions& o) {
        auto c = std::make_shared<Cond>();
        if (depth > 0 && s.chance(1, 2)) {
            c->op = s.coin() ? "or" : "and";
            c->left = genCond(s, vars, depth - 1, o);
            c->right = genCond(s, vars, depth - 1, o);
            return c;
        }
        const Variable* v = s.oneOf(vars);
        c->prop.var = v->name;
        c->prop.hedges = genHedges(s, 3);
        if (v->terms.empty() || (o.any && s.chance(1, 20)))
            c->prop.hedges.push_back("any");
        else
            c->prop.term = s.oneOf(v->terms).name;
        return c;
    }

    static bool usesOp(const CondP& c, const std::string& op) {
        if (c->op.empty())
            return false;
        return c->op == op || usesOp(c->left, op) || usesOp(c->right, op);
    }

    static void genRange(Src& s, Variable& v) {
        static const std::vector<std::pair<double, double>> simple
            = {{0, 1}, {-1, 1}, {0, 10}, {-10, 10}, {0, 100}, {-5, 5}, {0, 0.5}, {100, 1000}};
        if (s.chance(2, 5)) {
            v.min = s.num(-50, 50);
            v.max = r3(v.min + s.num(0.5, 60));
        } else {
            auto p = s.oneOf(simple);
            v.min = p.first;
            v.max = p.second;
        }
    }

    Engine genEngine(Src& s, const GenOptions& base) {
        Engine e;
        GenOptions o = base;
        if (base.grow && s.chance(1, 12)) {  // larger than usual
            if (o.maxInputs == 3) o.maxInputs = 6;
            if (o.maxOutputs == 2) o.maxOutputs = 5;
            if (o.maxBlocks == 2) o.maxBlocks = 4;
            if (o.maxRules > 1) o.maxRules += 8;
            o.maxTerms += 4;
        }
        std::set<std::string> names;
        e.name = genName(s, names);
        names.clear();
        if (o.descriptions && s.coin())
            e.description = genDescription(s, "some description of " + e.name, o);
        int ni = s.range(o.minInputs, o.maxInputs), no = s.range(o.minOutputs, o.maxOutputs);
        for (int i = 0; i < ni; ++i) {
            Variable v;
            v.name = genName(s, names);
            if (o.descriptions && s.chance(1, 4))
                v.description = genDescription(s, "input " + v.name, o);
            genRange(s, v);
            v.enabled = !(o.disabled && s.chance(1, 12));
            v.lockRange = o.lockFlags && s.chance(1, 4);
            std::set<std::string> tn;
            int nt = s.range(o.emptyTermsAllowed && s.chance(1, 10) ? 0 : 1, o.maxTerms);
            for (int k = 0; k < nt; ++k)
                v.terms.push_back(genMamdaniTerm(s, genName(s, tn), v.min, v.max, o));
            e.inputs.push_back(v);
        }
        std::vector<std::string> inNames;
        for (auto& v : e.inputs)
            inNames.push_back(v.name);
        for (int i = 0; i < no; ++i) {
            Variable v;
            v.output = true;
            v.name = genName(s, names);
            if (o.descriptions && s.chance(1, 4))
                v.description = genDescription(s, "output " + v.name, o);
            genRange(s, v);
            v.enabled = !(o.disabled && s.chance(1, 14));
            v.lockRange = o.lockFlags && s.chance(1, 4);
            v.lockPrevious = o.lockFlags && o.lockPrevious && s.chance(1, 5);
            v.defaultValue = s.chance(1, 2) ? s.num(v.min, v.max) : NaN;
            std::vector<int> kinds;
            if (o.mamdani) kinds.insert(kinds.end(), {0, 0, 0});
            if (o.takagi && !o.integralOnly) kinds.insert(kinds.end(), {1, 1});
            if (o.tsukamoto && !o.integralOnly) kinds.push_back(2);
            if (o.hybrid && !o.integralOnly) kinds.push_back(3);
            int kind = s.oneOf(kinds);
            std::set<std::string> tn;
            int nt = s.range(1, o.maxTerms);
            for (int k = 0; k < nt; ++k) {
                std::string name = genName(s, tn);
                if (kind == 0 || kind == 3)
                    v.terms.push_back(genMamdaniTerm(s, name, v.min, v.max, o));
                else if (kind == 2)
                    v.terms.push_back(genTerm(s, s.oneOf(monotonicTerms()), name, v.min, v.max, o));
                else {
                    int c = (int)s.u(3);
                    if (c == 1 && !o.linear) c = 0;
                    if (c == 2 && !o.functions) c = 0;
                    if (c == 0)
                        v.terms.push_back(genTerm(s, "Constant", name, v.min, v.max, GenOptions()));
                    else if (c == 1) {
                        Term t;
                        t.cls = "Linear";
                        t.name = name;
                        int n = s.range(1, ni + 1);
                        if (s.chance(2, 3)) n = ni + 1;
                        for (int q = 0; q < n; ++q)
                            t.p.push_back(s.num(-5, 5));
                        v.terms.push_back(t);
                    } else {
                        Term t;
                        t.cls = "Function";
                        t.name = name;
                        t.formula = genTameFormula(s, inNames, 2);
                        t.formulaText = infix(t.formula, o.randomText ? &s : nullptr);
                        v.terms.push_back(t);
                    }
                    v.terms.back().height = 1;
                }
            }
            if (kind == 0) {
                v.defuzzifier = s.oneOf(integralDefuzzifiers());
                v.resolution = s.chance(1, 4) ? s.range(1, o.maxResolution) : std::min(o.maxResolution, 50);
                v.aggregation = o.norms ? s.oneOf(snorms()) : "Maximum";
            } else {
                v.defuzzifier = s.coin() ? "WeightedSum" : "WeightedAverage";
                v.weightedType = kind == 1 ? (s.coin() ? "TakagiSugeno" : "Automatic")
                                 : kind == 2 ? (s.coin() ? "Tsukamoto" : "Automatic")
                                             : "TakagiSugeno";
                v.aggregation = s.chance(1, 2) ? "" : (o.norms ? s.oneOf(snorms()) : "Maximum");
            }
            e.outputs.push_back(v);
        }
        int nb = s.range(1, o.maxBlocks);
        std::set<std::string> bn;
        std::vector<const Variable*> vars;
        for (auto& v : e.inputs)
            vars.push_back(&v);
        std::vector<const Variable*> withOutputs(vars);
        if (o.outputsInAntecedent)
            for (auto& v : e.outputs)
                withOutputs.push_back(&v);
        bool anyMamdani = false;
        for (auto& v : e.outputs)
            anyMamdani = anyMamdani || v.defuzzifier.compare(0, 8, "Weighted") != 0;
        for (int i = 0; i < nb; ++i) {
            Block b;
            b.name = s.coin() ? genName(s, bn) : "";
            if (o.descriptions && s.chance(1, 4))
                b.description = genDescription(s, "rules" + (b.name.empty() ? "" : " of " + b.name), o);
            b.enabled = !(o.disabled && s.chance(1, 12));
            if (o.activations) {
                static const std::vector<std::string> acts
                    = {"General", "General", "General", "First", "Last", "Highest", "Lowest", "Proportional", "Threshold"};
                b.activation.cls = s.oneOf(acts);
                b.activation.n = s.range(1, 3);
                b.activation.threshold = s.oneOf(std::vector<double>{0.0, 0.1, 0.25, 0.5, 0.75, 1.0});
                static const std::vector<std::string> cmps = {">=", "<", "<=", "==", "!=", ">"};
                b.activation.comparison = s.oneOf(cmps);
            }
            bool mayDisable = o.disabled && (b.activation.cls == "General" || b.activation.cls == "Threshold");
            int nr = s.range(1, o.maxRules);
            bool needAnd = false, needOr = false;
            for (int k = 0; k < nr; ++k) {
                Rule r;
                bool chain = i > 0 && s.chance(1, 3);
                r.antecedent = genCond(s, chain ? withOutputs : vars, 3, o);
                needAnd = needAnd || usesOp(r.antecedent, "and");
                needOr = needOr || usesOp(r.antecedent, "or");
                int nc = s.chance(1, 3) ? 2 : 1;
                for (int c = 0; c < nc; ++c) {
                    const Variable& v = s.oneOf(e.outputs);
                    Proposition p;
                    p.var = v.name;
                    if (o.hedgesInConsequent && (c == nc - 1 || o.hedgesAnywhere) && s.chance(1, 3))
                        p.hedges = genHedges(s, 2);
                    p.term = s.oneOf(v.terms).name;
                    r.consequent.push_back(p);
                }
                if (o.weights && s.chance(1, 3))
                    r.weight = s.oneOf(std::vector<double>{0.5, 0.25, 0.9, 0.0, 0.1, 0.333});
                r.enabled = !(mayDisable && s.chance(1, 10));
                r.text = ruleText(r, o.randomText ? &s : nullptr);
                b.rules.push_back(r);
            }
            b.conjunction = needAnd || s.coin() ? (o.norms ? s.oneOf(tnorms()) : "Minimum") : "";
            b.disjunction = needOr || s.coin() ? (o.norms ? s.oneOf(snorms()) : "Maximum") : "";
            b.implication = anyMamdani || s.coin() ? (o.norms ? s.oneOf(tnorms()) : "Minimum") : "";
            e.blocks.push_back(b);
        }
        return e;
    }

    void refine(Src& s, Engine& e, bool randomText) {
        pbt::Rng r(s.u(1u << 30));
        auto little = [&] { return double(r.next() % 400000) / 1e9; };  // less than half of a thousandth
        auto r9 = [](double x) { return std::isfinite(x) ? std::round(x * 1e9) / 1e9 : x; };
        auto add = [&](double& x, double d) { x = r9(x + d); };
        for (auto* vs : {&e.inputs, &e.outputs})
            for (auto& v : *vs) {
                double d = little() * (r.next() % 2 ? 1 : -1);
                add(v.min, d);
                add(v.max, d);
                add(v.defaultValue, d);
                for (auto& t : v.terms) {
                    const std::string& c = t.cls;
                    auto more = [&](size_t i) { add(t.p[i], t.p[i] < 0 ? -little() : little()); };
                    if (t.height != 1)
                        add(t.height, little());
                    if (c == "Discrete")
                        for (auto& q : t.xy) {
                            add(q.first, d);
                            if (q.second < 1)
                                add(q.second, little());
                        }
                    else if (c == "Linear")
                        for (size_t i = 0; i < t.p.size(); ++i)
                            more(i);
                    else if (c == "Bell" || c == "Gaussian" || c == "Cosine" || c == "Spike" || c == "Sigmoid") {
                        add(t.p[0], d);
                        for (size_t i = 1; i < t.p.size(); ++i)
                            more(i);
                    } else if (c == "GaussianProduct") {
                        add(t.p[0], d), more(1), add(t.p[2], d), more(3);
                    } else if (c == "SigmoidDifference" || c == "SigmoidProduct") {
                        add(t.p[0], d), more(1), more(2), add(t.p[3], d);
                    } else
                        for (double& x : t.p)
                            add(x, d);
                }
            }
        for (auto& b : e.blocks) {
            if (b.activation.threshold < 1)
                add(b.activation.threshold, little());
            for (auto& x : b.rules) {
                if (x.weight != 1)
                    add(x.weight, little());
                x.text = ruleText(x, randomText ? &s : nullptr);
            }
        }
    }

    void heavy(Src& s, Engine& e) {
        for (auto& b : e.blocks)
            for (auto& r : b.rules)
                if (s.chance(1, 3)) {
                    r.weight = s.oneOf(std::vector<double>{1.5, 2.0, 1.001, 10.0});
                    r.text = ruleText(r);
                }
    }

    double genInput(Src& s, const Variable& v) {
        switch (s.u(12)) {
            case 0: return v.min;
            case 1: return v.max;
            case 2: return r3((v.min + v.max) / 2);
            case 3: {  // a parameter of a term
                if (!v.terms.empty()) {
                    const Term& t = s.oneOf(v.terms);
                    if (!t.p.empty()) {
                        double x = s.oneOf(t.p);
                        if (std::isfinite(x))
                            return x;
                    }
                    if (!t.xy.empty())
                        return s.oneOf(t.xy).first;
                }
                return s.num(v.min, v.max);
            }
            case 4: return r3(v.max + s.num(0, v.max - v.min));
            case 5: return r3(v.min - s.num(0, v.max - v.min));
            default: return s.num(v.min, v.max);
        }
    }

    // ---------------------------------------------------------------- reference semantics
    static double quotient(double a, double b) {
        if (!(std::fabs(b) > 1e-6) || !std::isfinite(a))  // degrees beyond 1 (UnboundedSum) may nullify denominators
            fragile = true;
        return a / b;
    }
    double tnorm(const std::string& n, double a, double b) {
        if (std::isnan(a) || std::isnan(b)) {
            fragile = true;
            return NaN;
        }
        if (n == "Minimum") return std::min(a, b);
        if (n == "AlgebraicProduct") return a * b;
        if (n == "BoundedDifference" && a + b != 1 && std::fabs(a + b - 1) < 1e-9)
            fragile = true;
        if (n == "BoundedDifference") return std::max(0.0, a + b - 1);
        if (n == "DrasticProduct") return eq(std::max(a, b), 1.0) ? std::min(a, b) : 0.0;
        if (n == "EinsteinProduct") return quotient(a * b, 2 - (a + b - a * b));
        if (n == "HamacherProduct") return eq(a + b, 0.0) ? 0.0 : quotient(a * b, a + b - a * b);
        if (n == "NilpotentMinimum") return gt(a + b, 1.0) ? std::min(a, b) : 0.0;
        throw RefError{"unknown T-norm " + n};
    }
    double snorm(const std::string& n, double a, double b) {
        if (std::isnan(a) || std::isnan(b)) {
            fragile = true;
            return NaN;
        }
        if (n == "Maximum") return std::max(a, b);
        if (n == "AlgebraicSum") return a + b - a * b;
        if (n == "BoundedSum") return std::min(1.0, a + b);
        if (n == "DrasticSum") return eq(std::min(a, b), 0.0) ? std::max(a, b) : 1.0;
        if (n == "EinsteinSum") return quotient(a + b, 1 + a * b);
        if (n == "HamacherSum" && ((std::fabs(a - 1) < 1e-9 && b != 0 && b != 1) || (std::fabs(b - 1) < 1e-9 && a != 0 && a != 1)))
            fragile = true;  // 1 in theory, and 1 +- rounding in practice
        if (n == "HamacherSum") return eq(a * b, 1.0) ? 1.0 : quotient(a + b - 2 * a * b, 1 - a * b);
        if (n == "NilpotentMaximum") return lt(a + b, 1.0) ? std::max(a, b) : 1.0;
        if (n == "NormalizedSum") return (a + b) / std::max(1.0, a + b);
        if (n == "UnboundedSum") return a + b;
        throw RefError{"unknown S-norm " + n};
    }
    double norm(const std::string& n, double a, double b) {
        for (auto& t : tnorms())
            if (t == n)
                return tnorm(n, a, b);
        return snorm(n, a, b);
    }

    double hedge(const std::string& h, double x) {
        if (h == "any") return 1.0;
        if (h == "not") return 1 - x;
        if (h == "very") return x * x;
        if (h == "somewhat") {
            if (x != 0 && std::fabs(x) < 1e-9)
                fragile = true;
            return std::sqrt(x);
        }
        if (h == "extremely") return x <= 0.5 ? 2 * x * x : 1 - 2 * (1 - x) * (1 - x);
        if (h == "seldom") {
            if ((x != 0 && std::fabs(x) < 1e-9) || (x != 1 && std::fabs(x - 1) < 1e-9))
                fragile = true;
            return x <= 0.5 ? std::sqrt(0.5 * x) : 1 - std::sqrt(0.5 * (1 - x));
        }
        throw RefError{"unknown hedge " + h};
    }

    static double sigmoid(double x, double infl, double slope) { return 1 / (1 + std::exp(-slope * (x - infl))); }

    double membership(const Term& t, double x, const World* w) {
        const std::vector<double>& p = t.p;
        const double h = t.height;
        const std::string& c = t.cls;
        if (c == "Constant")
            return p[0];
        if (c == "Linear") {
            if (!w)
                throw RefError{"linear without engine"};
            double r = 0;
            for (size_t i = 0; i < w->inputs.size() && i < p.size(); ++i)
                r += p[i] * w->inputs[i];
            if (p.size() > w->inputs.size())
                r += p.back();
            return r;
        }
        if (c == "Function") {
            Env env;
            if (w)
                env = w->env;
            env["x"] = x;
            return eval(t.formula, env);
        }
        if (std::isnan(x))
            return NaN;
        // the pieces of most functions meet at the parameters (or their means)
        if (c != "Bell" && c.compare(0, 7, "Sigmoid") != 0 && c != "Spike" && c != "Gaussian" && c != "Discrete") {
            for (double q : p)
                cmp(x, q);
            if (c == "Cosine") {
                cmp(x, p[0] - p[1] / 2);
                cmp(x, p[0] + p[1] / 2);
            }
        }
        for (auto& q : t.xy)
            cmp(x, q.first);
        if (c == "Bell")
            return h / (1 + std::pow(std::fabs((x - p[0]) / p[1]), 2 * p[2]));
        if (c == "Binary") {
            bool in = p[1] > p[0] ? ge(x, p[0]) : le(x, p[0]);
            return in ? h : 0;
        }
        if (c == "Concave") {
            double i = p[0], e = p[1];
            if (i <= e)
                return x < e ? h * (e - i) / (2 * e - i - x) : h;
            return x > e ? h * (i - e) / (i - 2 * e + x) : h;
        }
        if (c == "Cosine") {
            if (x < p[0] - p[1] / 2 || x > p[0] + p[1] / 2)
                return 0;
            return h * 0.5 * (1 + std::cos(2 / p[1] * M_PI * (x - p[0])));
        }
        if (c == "Discrete") {
            if (t.xy.empty())
                throw RefError{"empty discrete"};
            if (x <= t.xy.front().first)
                return h * t.xy.front().second;
            if (x >= t.xy.back().first)
                return h * t.xy.back().second;
            for (size_t i = 1; i < t.xy.size(); ++i)
                if (x <= t.xy[i].first) {
                    double x0 = t.xy[i - 1].first, x1 = t.xy[i].first, y0 = t.xy[i - 1].second, y1 = t.xy[i].second;
                    return h * (y0 + (y1 - y0) * (x - x0) / (x1 - x0));
                }
            return NaN;
        }
        if (c == "Gaussian")
            return h * std::exp(-(x - p[0]) * (x - p[0]) / (2 * p[1] * p[1]));
        if (c == "GaussianProduct") {
            double a = x < p[0] ? std::exp(-(x - p[0]) * (x - p[0]) / (2 * p[1] * p[1])) : 1;
            double b = x > p[2] ? std::exp(-(x - p[2]) * (x - p[2]) / (2 * p[3] * p[3])) : 1;
            return h * a * b;
        }
        if (c == "SShape" || c == "ZShape" || c == "PiShape") {
            auto s = [](double x, double a, double b) {
                if (x <= a) return 0.0;
                if (x >= b) return 1.0;
                double u = (x - a) / (b - a), v = (x - b) / (b - a);
                return x <= (a + b) / 2 ? 2 * u * u : 1 - 2 * v * v;
            };
            if (c == "SShape") return h * s(x, p[0], p[1]);
            if (c == "ZShape") return h * (1 - s(x, p[0], p[1]));
            return h * s(x, p[0], p[1]) * (1 - s(x, p[2], p[3]));
        }
        if (c == "Ramp") {
            double u = (x - p[0]) / (p[1] - p[0]);
            return h * (u <= 0 ? 0 : u >= 1 ? 1 : u);
        }
        if (c == "Rectangle")
            return ge(x, p[0]) && le(x, p[1]) ? h : 0;
        if (c == "Sigmoid")
            return h * sigmoid(x, p[0], p[1]);
        if (c == "SigmoidDifference")
            return h * std::fabs(sigmoid(x, p[0], p[1]) - sigmoid(x, p[3], p[2]));
        if (c == "SigmoidProduct")
            return h * sigmoid(x, p[0], p[1]) * sigmoid(x, p[3], p[2]);
        if (c == "Spike")
            return h * std::exp(-std::fabs(10 / p[1] * (x - p[0])));
        if (c == "Trapezoid") {
            if (lt(x, p[0]) || gt(x, p[3]))
                return 0;
            if (lt(x, p[1]))
                return p[0] == -Inf ? h : h * std::min(1.0, (x - p[0]) / (p[1] - p[0]));
            if (le(x, p[2]))
                return h;
            if (p[3] == Inf)
                return h;
            return lt(x, p[3]) ? h * (p[3] - x) / (p[3] - p[2]) : 0;
        }
        if (c == "Triangle") {
            if (lt(x, p[0]) || gt(x, p[2]))
                return 0;
            if (eq(x, p[1]))
                return h;
            if (x < p[1])
                return p[0] == -Inf ? h : h * (x - p[0]) / (p[1] - p[0]);
            return p[2] == Inf ? h : h * (p[2] - x) / (p[2] - p[1]);
        }
        throw RefError{"unknown term " + c};
    }

    double tsukamoto(const Term& t, double y) {
        const std::vector<double>& p = t.p;
        const double h = t.height;
        const std::string& c = t.cls;
        auto root = [&](double v) {
            if (std::fabs(v) < 1e-10)
                fragile = true;
            return std::sqrt(v);
        };
        if (c == "Ramp") return p[0] + (p[1] - p[0]) * y / h;
        if (c == "Sigmoid") {
            if (std::fabs(h - y) < 1e-5)
                fragile = true;
            return p[0] - std::log(h / y - 1) / p[1];
        }
        if (c == "Concave") return h * (p[0] - p[1]) / y + 2 * p[1] - p[0];
        if (c == "SShape")
            return y <= h / 2 ? p[0] + (p[1] - p[0]) * std::sqrt(y / (2 * h)) : p[1] - (p[1] - p[0]) * root((h - y) / (2 * h));
        if (c == "ZShape")
            return y <= h / 2 ? p[1] - (p[1] - p[0]) * std::sqrt(y / (2 * h)) : p[0] + (p[1] - p[0]) * root((h - y) / (2 * h));
        throw RefError{"not monotonic: " + c};
    }

    Machine::Machine(const Engine& engine) : e(engine), in(engine.inputs.size(), NaN), out(engine.outputs.size()) {}

    static double bound(double x, double lo, double hi) { return x > hi ? hi : x < lo ? lo : x; }

    void Machine::setInput(size_t i, double v) { in[i] = e.inputs[i].lockRange ? bound(v, e.inputs[i].min, e.inputs[i].max) : v; }

    void Machine::restart() {
        for (double& x : in)
            x = NaN;
        for (auto& o : out) {
            o.fuzzy.clear();
            o.value = o.previous = NaN;
        }
    }

    World Machine::world() const {
        World w;
        w.inputs = in;
        for (size_t i = 0; i < in.size(); ++i)
            w.env[e.inputs[i].name] = in[i];
        for (size_t i = 0; i < out.size(); ++i)
            w.env[e.outputs[i].name] = out[i].value;
        return w;
    }

    // a computed degree of 0 or 1 may be off by a rounding error, which a square root turns into a large difference
    static void roundingMatters(const std::string& h, double x) {
        if ((h == "somewhat" || h == "seldom") && std::fabs(x) < 1e-9)
            fragile = true;
        if (h == "seldom" && std::fabs(x - 1) < 1e-9)
            fragile = true;
    }

    double Machine::evalProp(const Proposition& p) {
        const Variable* v = e.find(p.var);
        if (!v->enabled)
            return 0;
        double r = NaN;
        if (!(p.hedges.size() && p.hedges.back() == "any")) {
            const Term* t = nullptr;
            for (auto& x : v->terms)
                if (x.name == p.term)
                    t = &x;
            if (v->output) {
                const RefOutput& o = out[v - e.outputs.data()];
                r = 0;
                for (auto& a : o.fuzzy)
                    if (a.term == t)
                        r = v->aggregation.empty() ? r + a.degree : snorm(v->aggregation, r, a.degree);
            } else {
                World w = world();
                r = membership(*t, in[v - e.inputs.data()], &w);
            }
        }
        for (size_t i = p.hedges.size(); i-- > 0;) {
            if (v->output)
                roundingMatters(p.hedges[i], r);
            r = hedge(p.hedges[i], r);
        }
        return r;
    }

    double Machine::evalCond(const CondP& c, const Block& b) {
        if (c->op.empty())
            return evalProp(c->prop);
        double l = evalCond(c->left, b), r = evalCond(c->right, b);
        return c->op == "and" ? tnorm(b.conjunction, l, r) : snorm(b.disjunction, l, r);
    }

    double Machine::aggregated(const Variable& v, const RefOutput& o, double x, const World& w) const {
        double mu = 0;
        for (auto& a : o.fuzzy)
            mu = snorm(v.aggregation, mu, tnorm(a.implication, membership(*a.term, x, &w), a.degree));
        return mu;
    }

    double integralDefuzzify(const std::string& cls, const std::function<double(double)>& mu, double lo, double hi, int res,
                             const std::function<std::vector<double>(double)>& parts) {
        if (!std::isfinite(lo + hi))
            return NaN;
        std::vector<double> x(res), y(res);
        double dx = (hi - lo) / res, ymax = -Inf;
        for (int i = 0; i < res; ++i) {
            x[i] = lo + (i + 0.5) * dx;
            y[i] = mu(x[i]);
            ymax = std::max(ymax, y[i]);
            if (!std::isfinite(y[i]))
                fragile = true;
        }
        double area = 0, mass = 0;
        for (double v : y) {
            area += v;
            mass += std::fabs(v);
        }
        if (mass != 0 && (mass < 1e-9 || std::fabs(area) < 1e-6 * mass))
            fragile = true;
        bool maxima = cls != "Centroid" && cls != "Bisector";
        if (maxima ? !(ymax > 0) : mass == 0)
            return NaN;
        if (maxima && ymax < 1e-9)
            fragile = true;
        if (cls == "Centroid") {
            double a = 0, m = 0;
            for (int i = 0; i < res; ++i) {
                a += y[i];
                m += x[i] * y[i];
            }
            return m / a;
        }
        if (cls == "Bisector") {
            double total = 0, cum = 0, best = Inf;
            for (double v : y)
                total += v;
            std::vector<double> c(res);
            for (int i = 0; i < res; ++i) {
                cum += y[i];
                c[i] = std::fabs(cum / total - 0.5);
                best = std::min(best, c[i]);
            }
            std::vector<double> b;
            bool close = false;
            for (int i = 0; i < res; ++i) {
                if (c[i] == best)
                    b.push_back(x[i]);
                else if (c[i] < best + 1e-9)
                    close = true;
            }
            // several bisectors are certain only when nothing is added between them
            if (b.size() > 1)
                for (int i = 0; i < res; ++i)
                    if (x[i] > b.front() && x[i] <= b.back() && y[i] != 0)
                        close = true;
            if (close)
                fragile = true;
            double s = 0;
            for (double v : b)
                s += v;
            return s / b.size();
        }
        std::vector<double> m;
        for (int i = 0; i < res; ++i)
            if (y[i] >= ymax - 1e-9)
                m.push_back(x[i]);
        if (m.size() > 1)  // certain only on plateaus
            for (double v : m) {
                double d = dx * 1e-3;
                if (mu(v + d) != ymax || mu(v - d) != ymax || (parts && (parts(v + d) != parts(v) || parts(v - d) != parts(v) || parts(v) != parts(m[0]))))
                    fragile = true;
            }
        if (cls == "SmallestOfMaximum") return m.front();
        if (cls == "LargestOfMaximum") return m.back();
        double s = 0;
        for (double v : m)
            s += v;
        return s / m.size();
    }

    double weightedDefuzzify(
        const std::string& cls, const std::string& type, const std::string& aggregation, const std::vector<Activated>& terms,
        const World& w
    ) {
        if (terms.empty())
            return NaN;
        std::vector<Activated> groups;
        for (auto& a : terms) {
            bool found = false;
            for (auto& g : groups)
                if (g.term->name == a.term->name) {
                    g.degree = aggregation.empty() ? g.degree + a.degree : snorm(aggregation, g.degree, a.degree);
                    found = true;
                }
            if (!found)
                groups.push_back(a);
        }
        std::string ty = type;
        if (ty == "Automatic") {
            std::set<std::string> types;
            for (auto& g : groups)
                types.insert(isTakagiSugeno(g.term->cls) ? "TakagiSugeno" : isMonotonic(g.term->cls) ? "Tsukamoto" : "Automatic");
            if (types.size() != 1 || *types.begin() == "Automatic")
                throw RefError{"type cannot be inferred"};
            ty = *types.begin();
        }
        double sum = 0, weights = 0;
        for (auto& g : groups) {
            double z = ty == "TakagiSugeno" ? membership(*g.term, g.degree, &w) : tsukamoto(*g.term, g.degree);
            sum += g.degree * z;
            weights += g.degree;
        }
        if (cls == "WeightedSum")
            return sum;
        if (weights != 0 && std::fabs(weights) < 1e-9)
            fragile = true;
        return sum / weights;
    }

    double Machine::defuzzify(const Variable& v, const RefOutput& o) {
        World w = world();
        if (v.defuzzifier.compare(0, 8, "Weighted") == 0)
            return weightedDefuzzify(v.defuzzifier, v.weightedType, v.aggregation, o.fuzzy, w);
        return integralDefuzzify(v.defuzzifier, [&](double x) { return aggregated(v, o, x, w); }, v.min, v.max, v.resolution,
            [&](double x) {
                std::vector<double> r;
                for (auto& a : o.fuzzy)
                    r.push_back(tnorm(a.implication, membership(*a.term, x, &w), a.degree));
                return r;
            });
    }

    void Machine::process() {
        for (auto& o : out)
            o.fuzzy.clear();
        degrees.clear();
        triggered.clear();
        for (auto& b : e.blocks) {
            degrees.emplace_back(b.rules.size(), 0.0);
            triggered.emplace_back(b.rules.size(), false);
            if (!b.enabled)
                continue;
            std::vector<double>& d = degrees.back();
            std::vector<bool>& tr = triggered.back();
            const std::string& act = b.activation.cls;
            auto fire = [&](size_t i, double degree) {
                if (!b.rules[i].enabled || !gt(degree, 0))
                    return;
                tr[i] = true;
                for (auto& p : b.rules[i].consequent) {
                    const Variable* v = e.find(p.var);
                    if (!v->enabled)
                        continue;
                    double dd = degree;
                    for (size_t k = p.hedges.size(); k-- > 0;) {
                        roundingMatters(p.hedges[k], dd);
                        dd = hedge(p.hedges[k], dd);
                        if (std::fabs(dd) < 1e-9)
                            fragile = true;
                    }
                    for (auto& t : v->terms)
                        if (t.name == p.term) {
                            out[v - e.outputs.data()].fuzzy.push_back({&t, dd, b.implication});
                            break;
                        }
                }
            };
            size_t n = b.rules.size();
            if (act == "General" || act == "Threshold") {
                for (size_t i = 0; i < n; ++i) {
                    d[i] = b.rules[i].weight * evalCond(b.rules[i].antecedent, b);
                    bool ok = true;
                    if (act == "Threshold") {
                        const std::string& c = b.activation.comparison;
                        double t = b.activation.threshold;
                        int r = cmp(d[i], t);
                        ok = c == "<" ? r == -1 : c == "<=" ? (r == -1 || r == 0) : c == "==" ? r == 0 : c == "!=" ? r != 0
                             : c == ">=" ? (r == 1 || r == 0) : r == 1;
                    }
                    if (ok)
                        fire(i, d[i]);
                }
            } else if (act == "First" || act == "Last") {
                int count = 0;
                for (size_t k = 0; k < n; ++k) {
                    size_t i = act == "First" ? k : n - 1 - k;
                    d[i] = b.rules[i].weight * evalCond(b.rules[i].antecedent, b);
                    if (count < b.activation.n && gt(d[i], 0) && ge(d[i], b.activation.threshold)) {
                        fire(i, d[i]);
                        ++count;
                    }
                }
            } else if (act == "Highest" || act == "Lowest") {
                std::vector<size_t> idx;
                for (size_t i = 0; i < n; ++i) {
                    d[i] = b.rules[i].weight * evalCond(b.rules[i].antecedent, b);
                    if (gt(d[i], 0))
                        idx.push_back(i);
                }
                bool high = act == "Highest";
                std::stable_sort(idx.begin(), idx.end(), [&](size_t x, size_t y) { return high ? d[x] > d[y] : d[x] < d[y]; });
                size_t k = std::min(idx.size(), (size_t)std::max(0, b.activation.n));
                if (k > 0 && k < idx.size() && std::fabs(d[idx[k - 1]] - d[idx[k]]) < 1e-9)
                    fragile = true;
                for (size_t q = 0; q < k; ++q)
                    fire(idx[q], d[idx[q]]);
            } else if (act == "Proportional") {
                double sum = 0;
                for (size_t i = 0; i < n; ++i) {
                    d[i] = b.rules[i].weight * evalCond(b.rules[i].antecedent, b);
                    sum += d[i];
                }
                if (sum != 0 && std::fabs(sum) < 1e-9)
                    fragile = true;
                for (size_t i = 0; i < n; ++i) {
                    double q = d[i] / sum;
                    d[i] = std::isnan(q) ? 0 : q;
                    fire(i, d[i]);
                }
            } else
                throw RefError{"unknown activation " + act};
        }
        for (size_t i = 0; i < out.size(); ++i) {
            const Variable& v = e.outputs[i];
            RefOutput& o = out[i];
            if (!v.enabled)
                continue;
            double x = defuzzify(v, o);
            double last = o.value;
            if (std::isnan(x) && v.lockPrevious)
                x = last;
            if (std::isnan(x))
                x = v.defaultValue;
            o.previous = last;
            o.value = v.lockRange ? bound(x, v.min, v.max) : x;
        }
    }
}
