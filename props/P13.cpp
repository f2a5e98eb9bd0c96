// P13: formulas evaluate to the value of their mathematical expression.
#include "build.h"
using namespace pbt;
using model::Expr;
using model::ExprP;

static const std::vector<std::string> vars = {"a", "b", "speed", "x"};
static const std::vector<std::string> unary = {"abs", "acos", "asin", "atan", "ceil", "cos", "cosh", "exp", "fabs", "floor", "log", "log10",
    "round", "sin", "sinh", "sqrt", "tan", "tanh", "acosh", "asinh", "atanh", "log1p"};
static const std::vector<std::string> binary = {"atan2", "eq", "fmod", "ge", "gt", "le", "lt", "max", "min", "neq", "pow"};
static const std::vector<std::string> binaryOps = {"+", "-", "*", "/", "%", "^", "and", "or"};

static ExprP gen(Src& s, int depth) {
    int k = depth <= 0 ? (int)s.u(2) : (int)s.u(10);
    switch (k) {
        case 0: return model::number(s.num(0, 9));
        case 1: return model::variable(s.oneOf(vars));
        case 2: return model::node(Expr::Unary, s.coin() ? "!" : "~", {gen(s, depth - 1)});
        case 3: return model::node(Expr::Call, s.oneOf(unary), {gen(s, depth - 1)});
        case 4: return model::node(Expr::Call, s.oneOf(binary), {gen(s, depth - 1), gen(s, depth - 1)});
        default: return model::node(Expr::Binary, s.oneOf(binaryOps), {gen(s, depth - 1), gen(s, depth - 1)});
    }
}
static size_t count(const ExprP& e, int kind) {  // 0 operators, 1 functions
    size_t n = kind == 0 ? (e->kind == Expr::Unary || e->kind == Expr::Binary) : e->kind == Expr::Call;
    for (auto& a : e->args)
        n += count(a, kind);
    return n;
}
static double value(Src& s) {
    switch (s.u(8)) {
        case 0: return s.num(0, 1);
        case 1: return 1;
        case 2: return 0;
        case 3: return s.oneOf(std::vector<double>{model::NaN, model::Inf, -model::Inf});
        default: return s.num(-9, 9);
    }
}
// values agree, where discontinuities near the value of a subexpression are discarded by the caller
static bool agree(double a, double b) { return close(a, b, 1e-9, 1e-9) || same(a, b); }

static bool isUnary(const std::string& t) {
    for (auto& u : unary)
        if (u == t) return true;
    return t == "!" || t == "~";
}
static bool isElement(const std::string& t) {
    for (auto& u : binary)
        if (u == t) return true;
    for (auto& u : binaryOps)
        if (u == t) return true;
    return isUnary(t);
}
static std::vector<std::string> words(const std::string& t) {
    std::istringstream i(t);
    std::vector<std::string> r;
    for (std::string w; i >> w;)
        r.push_back(w);
    return r;
}
static ExprP parseNumberOrVariable(const std::string& t) {
    char* end;
    double v = strtod(t.c_str(), &end);
    return *end ? model::variable(t) : model::number(v);
}
static ExprP fromPostfix(Case& c, const std::string& text) {
    std::vector<ExprP> st;
    for (auto& t : words(text)) {
        if (!isElement(t)) {
            st.push_back(parseNumberOrVariable(t));
            continue;
        }
        size_t n = isUnary(t) ? 1 : 2;
        if (st.size() < n)
            c.fail("postfix", "ill-formed postfix <" + text + ">");
        std::vector<ExprP> args(st.end() - n, st.end());
        st.resize(st.size() - n);
        bool op = t == "!" || t == "~";
        for (auto& u : binaryOps)
            op = op || u == t;
        st.push_back(model::node(op ? (n == 1 ? Expr::Unary : Expr::Binary) : Expr::Call, t, args));
    }
    if (st.size() != 1)
        c.fail("postfix", "ill-formed postfix <" + text + ">");
    return st[0];
}
static std::string structure(const ExprP& e) {
    if (e->kind == Expr::Number) return fl::Op::str(e->value, 3);
    if (e->kind == Expr::Variable) return e->name;
    std::string r = e->name + "(";
    for (auto& a : e->args)
        r += structure(a) + ",";
    return r + ")";
}

static void formulas(Case& c) {
    Src& s = c.src;
    ExprP e = gen(s, s.range(1, 4));
    std::string text = model::infix(e, &s);
    c.note([&] { return "formula: " + text; });
    std::unique_ptr<fl::Function> f(new fl::Function("f"));
    for (auto& v : vars)
        f->variables[v] = 0.5;
    bool configure = s.coin();
    try {
        if (configure)
            f->configure(text);
        else
            f->load(text);
    } catch (fl::Exception& x) {
        c.fail("rejected", "well-formed formula <" + text + "> was rejected: " + x.what());
    }
    c.check(f->isLoaded() && f->getFormula() == text && f->parameters() == text, "state", "formula or loaded state not kept");
    size_t ops = count(e, 0), funs = count(e, 1);
    if (ops + funs) {
        fl::Function::Node* root = f->root();
        c.check(root->treeSize() == ops + funs && root->treeSize(fl::Function::Element::Operator) == ops && root->treeSize(fl::Function::Element::Function) == funs,
            "tree-size", "number of operators and functions");
    }
    std::string sx = structure(e), px = f->toPostfix(text);
    c.check(structure(fromPostfix(c, px)) == sx, "postfix", "postfix <" + px + "> denotes another expression");
    std::string nx = f->root()->toPostfix();
    c.check(structure(fromPostfix(c, nx)) == sx, "tree-postfix", "postfix of the tree <" + nx + "> denotes another expression");
    {
        std::vector<std::string> w = words(f->root()->toPrefix());
        size_t pos = 0;
        std::function<std::string()> pre = [&]() -> std::string {
            if (pos >= w.size())
                return "?";
            std::string t = w[pos++];
            if (!isElement(t))
                return t;
            std::string r = t + "(";
            r += pre() + ",";
            if (!isUnary(t))
                r += pre() + ",";
            return r + ")";
        };
        std::string got = pre();
        c.check(got == sx && pos == w.size(), "tree-prefix", "prefix of the tree denotes " + got);
    }
    std::unique_ptr<fl::Function> k(f->clone()), assigned(fl::Function::create("g", "1 + 1"));
    *assigned = *f;
    std::unique_ptr<fl::Function::Node> tree(f->root()->clone());
    bool nontrivial = false;
    for (int i = 0; i < 4; ++i) {
        model::Env env;
        for (auto& v : vars)
            env[v] = value(s);
        model::fragile = false;
        double want = model::eval(e, env);
        if (model::fragile)
            continue;
        std::map<std::string, double> m(env.begin(), env.end());
        double got[] = {f->evaluate(m), k->evaluate(m), assigned->evaluate(m), tree->evaluate(&m), f->membership(env["x"])};
        static const char* what[] = {"", " of a clone", " of an assigned copy", " of a cloned tree", " by membership"};
        for (int j = 0; j < 5; ++j)
            c.checkf(agree(got[j], want), j == 0 ? "value" : "copy-value", [&] {
                std::string r = text + what[j] + " is " + str(got[j]) + " instead of " + str(want) + " at";
                for (auto& v : env)
                    r += " " + v.first + "=" + str(v.second);
                return r;
            });
        nontrivial = nontrivial || (ops + funs >= 2 && std::isfinite(want));
    }
    // another formula afterwards, on the original only
    ExprP e2 = gen(s, 2);
    std::string text2 = model::infix(e2, &s);
    f->load(text2);
    model::Env env;
    for (auto& v : vars)
        env[v] = value(s);
    std::map<std::string, double> m(env.begin(), env.end());
    model::fragile = false;
    double w1 = model::eval(e, env), w2 = model::eval(e2, env);
    if (!model::fragile) {
        double g1 = k->evaluate(m), g2 = f->evaluate(m);
        c.checkf(agree(g2, w2), "second-formula", [&] { return text2 + " after " + text + " is " + str(g2) + " instead of " + str(w2); });
        c.checkf(agree(g1, w1), "clone-changed", [&] { return "clone of " + text + " became " + str(g1) + " instead of " + str(w1); });
    }
    f->unload();
    c.check(!f->isLoaded(), "unload", "still loaded after unload");
    bool raised = false;
    try {
        f->membership(0);
    } catch (fl::Exception& x) {
        raised = true;
        c.check(build::says(x), "message", "an exception without a message");
    }
    c.check(raised, "unloaded", "unloaded formula was evaluated");
    c.nontrivial(nontrivial);
    c.label(ops + funs > 6 ? "more than 6 operations" : "up to 6 operations");
}

static void malformed(Case& c) {
    Src& s = c.src;
    ExprP e = gen(s, s.range(1, 3));
    std::string good = model::infix(e);
    // tokens of the formula
    std::string spaced;
    for (char ch : good)
        spaced += std::string("()!~^*/%+-,").find(ch) != std::string::npos ? std::string(" ") + ch + " " : std::string(1, ch);
    std::vector<std::string> t = words(spaced);
    auto pick = [&](const std::function<bool(const std::string&)>& p) {
        std::vector<size_t> r;
        for (size_t i = 0; i < t.size(); ++i)
            if (p(t[i]))
                r.push_back(i);
        return r;
    };
    auto isParen = [](const std::string& x) { return x == "(" || x == ")"; };
    auto isOperand = [&](const std::string& x) { return !isElement(x) && !isParen(x) && x != ","; };
    auto isBinary = [&](const std::string& x) { return isElement(x) && !isUnary(x); };
    std::string kind;
    bool evaluatesLater = false;
    switch (s.u(10)) {
        case 0: {
            auto v = pick(isParen);
            if (v.empty()) {
                t.insert(t.begin() + s.u(t.size() + 1), s.coin() ? "(" : ")");
            } else
                t.erase(t.begin() + s.oneOf(v));
            kind = "parenthesis removed or added";
            break;
        }
        case 1:
            t.insert(t.begin() + s.u(t.size() + 1), s.coin() ? "(" : ")");
            kind = "parenthesis added";
            break;
        case 2: {
            auto v = pick(isOperand);
            t.erase(t.begin() + s.oneOf(v));
            kind = "operand removed";
            break;
        }
        case 3: {
            t.insert(t.begin() + s.u(t.size() + 1), s.coin() ? "a" : "2.5");
            kind = "operand added";
            break;
        }
        case 4: {
            auto v = pick(isBinary);
            if (v.empty())
                c.discard();
            t.erase(t.begin() + s.oneOf(v));
            kind = "binary operator or function removed";
            break;
        }
        case 5: {
            auto v = pick(isOperand);
            t[s.oneOf(v)] = s.oneOf(std::vector<std::string>{"unknown", "A", "1a", "a.b", "x1", "Speed", "infinite", "0x1g"});
            kind = "unknown variable";
            evaluatesLater = true;
            break;
        }
        case 6: {
            auto v = pick([&](const std::string& x) { return isElement(x) && std::isalpha((unsigned char)x[0]) && x != "and" && x != "or"; });
            if (v.empty())
                c.discard();
            size_t i = s.oneOf(v);
            t[i] = s.oneOf(std::vector<std::string>{"sine", "Abs", "maximum", "f", "atan3", "log2"});
            kind = "unknown function";
            break;
        }
        case 7:
            t.insert(t.begin() + s.u(t.size() + 1), s.oneOf(binaryOps));
            kind = "binary operator added";
            break;
        case 8:
            t.assign(s.u(2), " ");
            kind = "empty";
            break;
        default: {
            auto v = pick([&](const std::string& x) { return isElement(x); });
            if (v.empty())
                c.discard();
            // an element of another arity in place
            size_t i = s.oneOf(v);
            t[i] = isUnary(t[i]) ? s.oneOf(binary) : s.oneOf(unary);
            kind = "other number of arguments";
        }
    }
    std::string text;
    for (size_t i = 0; i < t.size(); ++i)
        text += (i ? " " : "") + t[i];
    c.note([&] { return kind + ": <" + text + "> from <" + good + ">"; });
    std::unique_ptr<fl::Function> f(new fl::Function("f"));
    auto setVars = [&] {
        for (auto& v : vars)
            f->variables[v] = 0.5;
    };
    setVars();
    bool before = s.coin();
    if (before)
        f->load("a + b");
    bool raised = false;
    int route = (int)s.u(4);
    try {
        if (route == 0)
            f->load(text);
        else if (route == 1)
            f->configure(text);
        else if (route == 2) {
            f->setFormula(text);
            f->load();
        } else {
            try {
                std::unique_ptr<fl::Function> g(fl::Function::create("g", text));
            } catch (fl::Exception&) {
                f->load(text);
            }
        }
    } catch (fl::Exception& x) {
        raised = true;
        c.check(build::says(x), "message", "an exception without a message");
    } catch (std::exception& x) {
        c.fail("foreign-exception", kind + ": <" + text + "> raised " + x.what());
    }
    c.check(raised, "accepted", kind + ": malformed formula <" + text + "> was accepted");
    // never evaluated silently afterwards
    raised = false;
    double y = 0;
    try {
        y = f->membership(1);
    } catch (fl::Exception& x) {
        raised = true;
        c.check(build::says(x), "message", "an exception without a message");
    }
    c.checkf(raised, "silent", [&] { return kind + ": malformed formula <" + f->getFormula() + "> evaluates to " + str(y) + " after the failed load"; });
    setVars();
    try {
        f->load(good);
    } catch (fl::Exception& x) {
        c.fail("recovery", "<" + good + "> was rejected after <" + text + ">: " + x.what());
    }
    model::Env env;
    for (auto& v : vars)
        env[v] = 0.5;
    env["x"] = 1;
    model::fragile = false;
    double want = model::eval(e, env);
    if (!model::fragile) {
        y = f->membership(1);
        c.checkf(agree(y, want), "recovery", [&] { return good + " after " + text + " is " + str(y) + " instead of " + str(want); });
    }
    c.nontrivial(!text.empty());
    c.label(kind);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P13", {
        {"formulas", formulas, 40000, 1500000, "at least two operators or functions and a finite value"},
        {"malformed", malformed, 40000, 1000000, "the malformed text is not empty"},
    });
}
