// P24: exported R scripts carry the engine and its data.
#include "build.h"
#include <fstream>
#include <unistd.h>
using namespace pbt;

struct Bad {
    std::string what;
};
struct Token {
    char kind;  // i identifier, n number, s string, o operator, l end of line
    std::string text;
};
// lexer of R, which also checks that brackets are balanced
static std::vector<Token> lex(const std::string& t) {
    std::vector<Token> r;
    std::string open;
    size_t i = 0;
    while (i < t.size()) {
        char c = t[i];
        if (c == '\n') {
            if (open.empty() || open.back() == '{')
                r.push_back({'l', ""});
            ++i;
        } else if (isspace((unsigned char)c)) {
            ++i;
        } else if (c == '#') {
            while (i < t.size() && t[i] != '\n')
                ++i;
        } else if (c == '"' || c == '\'') {
            std::string s;
            for (++i;; ++i) {
                if (i >= t.size())
                    throw Bad{"string without end"};
                if (t[i] == c)
                    break;
                if (t[i] == '\\') {
                    if (++i >= t.size())
                        throw Bad{"string without end"};
                    switch (t[i]) {
                        case 'n': s += '\n'; break;
                        case 't': s += '\t'; break;
                        case 'r': s += '\r'; break;
                        case '"': s += '"'; break;
                        case '\'': s += '\''; break;
                        case '\\': s += '\\'; break;
                        default: throw Bad{std::string("unknown escape \\") + t[i]};
                    }
                } else
                    s += t[i];
            }
            ++i;
            r.push_back({'s', s});
        } else if (isalpha((unsigned char)c) || c == '.' || c == '_') {
            size_t j = i;
            while (j < t.size() && (isalnum((unsigned char)t[j]) || t[j] == '.' || t[j] == '_'))
                ++j;
            r.push_back({'i', t.substr(i, j - i)});
            i = j;
        } else if (isdigit((unsigned char)c)) {
            size_t j = i;
            while (j < t.size() && (isdigit((unsigned char)t[j]) || t[j] == '.'))
                ++j;
            r.push_back({'n', t.substr(i, j - i)});
            i = j;
        } else {
            if (std::string("([{").find(c) != std::string::npos)
                open += c;
            else if (std::string(")]}").find(c) != std::string::npos) {
                char want = c == ')' ? '(' : c == ']' ? '[' : '{';
                if (open.empty() || open.back() != want)
                    throw Bad{std::string("unbalanced ") + c};
                open.pop_back();
            } else if (std::string("=,+-*/:;<>$!&|~^%").find(c) == std::string::npos)
                throw Bad{std::string("unexpected character ") + c};
            r.push_back({'o', std::string(1, c)});
            ++i;
        }
    }
    if (!open.empty())
        throw Bad{"unbalanced " + open};
    r.push_back({'l', ""});
    return r;
}
struct Script {
    std::map<std::string, std::vector<Token>> assigned;
    std::vector<std::string> order;
    std::vector<Token> rest;
};
// statements: identifier = tokens; a line that ends with + continues
static Script parse(const std::string& text) {
    Script r;
    std::vector<Token> t = lex(text), cur;
    for (auto& k : t) {
        if (k.kind == 'l') {
            if (!cur.empty() && cur.back().kind == 'o' && cur.back().text == "+")
                continue;
            if (cur.size() > 2 && cur[0].kind == 'i' && cur[1].text == "=" && cur[1].kind == 'o') {
                if (r.assigned.count(cur[0].text) && cur[0].text != "engine.df")
                    throw Bad{cur[0].text + " is assigned twice"};
                r.assigned[cur[0].text] = std::vector<Token>(cur.begin() + 2, cur.end());
                r.order.push_back(cur[0].text);
            } else
                r.rest.insert(r.rest.end(), cur.begin(), cur.end());
            cur.clear();
            continue;
        }
        cur.push_back(k);
    }
    return r;
}
static std::string flat(const std::vector<Token>& t) {
    std::string r;
    for (auto& k : t)
        r += k.kind == 's' ? "\"" + k.text + "\"" : k.text;
    return r;
}
static bool has(const std::string& t, const std::string& x) { return t.find(x) != std::string::npos; }

static void scripts(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    o.maxInputs = 4;
    o.minInputs = s.chance(1, 8) ? 1 : 2;
    o.maxOutputs = s.chance(1, 6) ? 6 : 3;
    o.maxResolution = 20;
    o.maxRules = 4;
    o.maxTerms = 3;
    o.descriptions = true;
    o.wildDescriptions = true;
    model::Engine e = model::genEngine(s, o);
    if (s.chance(1, 6))
        e.name = s.oneOf(std::vector<std::string>{"", "an \"engine\"", "back\\slash", "with spaces"});
    size_t n = e.inputs.size();
    EngineP a = build::engine(e), b = build::engine(e);
    size_t p = s.u(n), q = s.chance(1, 8) ? p : s.u(n);
    if (p == q && !s.chance(1, 4))
        q = (p + 1) % n;
    std::vector<size_t> outs;
    for (size_t i = 0; i < e.outputs.size(); ++i)
        if (!s.chance(1, 4))
            outs.push_back(i);
    if (s.chance(1, 5))
        std::reverse(outs.begin(), outs.end());
    for (size_t i = 0; i < n; ++i) {
        double v = s.num(e.inputs[i].min, e.inputs[i].max);
        a->getInputVariable(i)->setValue(v);
        b->getInputVariable(i)->setValue(v);
    }
    fl::RScriptExporter x;
    std::string low = "yellow", high = "red", contour = "black";
    if (s.coin()) {
        low = s.oneOf(std::vector<std::string>{"blue", "#FF0000", "white"});
        high = s.oneOf(std::vector<std::string>{"green", "#00FF00", "grey50"});
        contour = s.oneOf(std::vector<std::string>{"orange", "#0000FF", "pink"});
        x.setMinimumColor(low);
        x.setMaximumColor(high);
        x.setContourColor(contour);
    }
    c.check(x.getMinimumColor() == low && x.getMaximumColor() == high && x.getContourColor() == contour, "colors", "colours of the exporter");
    auto vars = [&](fl::Engine* en) {
        std::vector<fl::OutputVariable*> r;
        for (size_t i : outs)
            r.push_back(en->getOutputVariable(i));
        return r;
    };
    std::vector<fl::InputVariable*> active;
    for (size_t i = 0; i < n; ++i)
        active.push_back(i == p || i == q ? b->getInputVariable(i) : nullptr);
    int route = (int)s.u(6);
    int values = s.range(1, 60);
    fl::FldExporter::ScopeOfValues scope = s.coin() ? fl::FldExporter::AllVariables : fl::FldExporter::EachVariable;
    if (scope == fl::FldExporter::EachVariable)
        values = s.range(1, 9);
    std::string data, text, error, wantError, fld, path, dfPath;
    bool whole = false;
    if (route == 2 || route == 3) {
        for (int l = s.range(0, 6); l > 0; --l) {
            for (size_t i = 0; i < n; ++i)
                data += (i ? " " : "") + model::num(s.num(e.inputs[i].min, e.inputs[i].max));
            data += "\n";
        }
    }
    if (route == 5 && n >= 1) {  // everything by default
        p = 0;
        q = 1 % n;
        for (size_t i = 0; i < n; ++i)
            active[i] = i == p || i == q ? b->getInputVariable(i) : nullptr;
        outs.clear();
        for (size_t i = 0; i < e.outputs.size(); ++i)
            outs.push_back(i);
        values = 1024;
        scope = fl::FldExporter::AllVariables;
        whole = true;
    }
    std::string before = fl::FllExporter().toString(a.get());
    auto tmp = [&] {
        char nme[] = "rXXXXXX";
        int fd = mkstemp(nme);
        if (fd < 0)
            c.discard();
        close(fd);
        return std::string(nme);
    };
    auto vp = a->getInputVariable(p), vq = a->getInputVariable(q);
    try {
        std::istringstream is(data);
        std::ostringstream os;
        switch (route) {
            case 0: text = x.toString(a.get(), vp, vq, values, scope, vars(a.get())); break;
            case 1:
                path = tmp();
                x.toFile(path, a.get(), vp, vq, values, scope, vars(a.get()));
                break;
            case 2: text = x.toString(a.get(), vp, vq, is, vars(a.get())); break;
            case 3:
                path = tmp();
                x.toFile(path, a.get(), vp, vq, is, vars(a.get()));
                break;
            case 4:
                dfPath = s.oneOf(std::vector<std::string>{"data.fld", "/tmp/some data.fld", "C:\\data\\file.fld", "a \"file\".fld", ""});
                x.writeScriptImportingDataFrame(a.get(), os, vp, vq, dfPath, vars(a.get()));
                text = os.str();
                break;
            default:
                if (s.coin())
                    text = x.toString(a.get());
                else {
                    path = tmp();
                    x.toFile(path, a.get());
                }
        }
    } catch (fl::Exception& ex) {
        error = ex.getWhat();
    }
    if (!path.empty()) {
        std::ifstream f(path);
        std::stringstream t;
        t << f.rdbuf();
        text = t.str();
        f.close();
        unlink(path.c_str());
    }
    try {
        if (route == 2 || route == 3) {
            std::istringstream is(data);
            fld = fl::FldExporter().toString(b.get(), is);
        } else if (route != 4)
            fld = fl::FldExporter().toString(b.get(), values, scope, active);
    } catch (fl::Exception& ex) {
        wantError = ex.getWhat();
    }
    c.note([&] { return text.empty() ? model::describe(e) : text; });
    c.check(error.empty() == wantError.empty(), "exception", "exporting throws <" + error + ">, and exporting the dataset throws <" + wantError + ">");
    c.check(fl::FllExporter().toString(a.get()) == before, "changed", "exporting changes the engine");
    if (!error.empty()) {
        c.label("throws");
        return;
    }
    Script r;
    try {
        r = parse(text);
    } catch (Bad& bad) {
        c.fail("ill-formed", "the script is ill-formed: " + bad.what);
    }
    auto str = [&](const std::string& name, const std::string& want) {
        auto it = r.assigned.find(name);
        c.check(it != r.assigned.end() && it->second.size() == 1 && it->second[0].kind == 's', name, name + " is not assigned a text");
        c.checkf(it->second[0].text == want, name, [&] { return name + " is <" + it->second[0].text + "> instead of <" + want + ">"; });
    };
    str("engine.name", e.name);
    if (!e.description.empty())
        str("engine.description", e.description);
    str("engine.fll", before);
    if (route == 4)
        str("engine.fldFile", dfPath);
    else
        str("engine.fld", fld);
    c.check(r.assigned.count("engine.df") || has(flat(r.rest), "engine.df="), "frame", "no data frame");
    std::string frame = r.assigned.count("engine.df") ? flat(r.assigned["engine.df"]) : flat(r.rest);
    c.check(has(frame + flat(r.rest), route == 4 ? "engine.fldFile" : "engine.fld"), "frame", "the data frame is not read from the data");
    // plots
    std::vector<std::string> plots;
    for (auto& k : r.order)
        if (k.compare(0, 11, "engine.plot") == 0 && k != "engine.plots")
            plots.push_back(k);
    const std::string &A = e.inputs[p].name, &B = e.inputs[q].name;
    std::set<std::string> used;
    for (size_t i : outs) {
        const std::string& Z = e.outputs[i].name;
        std::vector<std::string> need;
        if (p != q) {
            for (bool swap : {false, true}) {
                std::string X = swap ? B : A, Y = swap ? A : B;
                bool found = false;
                for (auto& k : plots) {
                    std::string f = flat(r.assigned[k]);
                    if (has(f, "ggplot(engine.df,aes(" + X + "," + Y + "))") && has(f, "fill=" + Z + ")") && has(f, "z=" + Z + ")") && has(f, "x=" + X + ",y=" + Y) && has(f, "low=\"" + low + "\"")
                        && has(f, "high=\"" + high + "\"") && has(f, "color=\"" + contour + "\"") && has(f, "\"(" + X + ", " + Y + ") = " + Z + "\"")) {
                        found = true;
                        used.insert(k);
                    }
                }
                c.check(found, "plot", "no plot of " + Z + " over " + X + " and " + Y);
            }
        } else {
            int found = 0;
            for (auto& k : plots) {
                std::string f = flat(r.assigned[k]);
                if (has(f, "ggplot(engine.df,aes(" + A + "," + Z + "))") && has(f, "color=" + Z + ")") && has(f, "low=\"" + low + "\"") && has(f, "high=\"" + high + "\"") && has(f, "\"" + A + " vs " + Z + "\"") + has(f, "\"" + Z + " vs " + A + "\"")) {
                    ++found;
                    used.insert(k);
                }
            }
            c.check(found >= 1, "plot", "no plot of " + Z + " over " + A);
        }
    }
    c.check(used.size() == plots.size(), "plot", "a plot belongs to no output variable");
    std::string rest = flat(r.rest) + "," + flat(r.assigned["engine.plots"]);
    for (auto& k : plots)
        c.check(has(rest + ",", k + ","), "grid", k + " is not arranged");
    c.nontrivial(n >= 2 && !outs.empty());
    static const char* names[] = {"values", "values to file", "reader", "reader to file", "data file", "default"};
    c.label(names[route]);
    c.label(p == q ? "one input" : "two inputs");
    (void)whole;
}

static void errors(Case& c) {
    Src& s = c.src;
    fl::Engine e("e");
    bool in = s.coin();
    if (in)
        e.addInputVariable(new fl::InputVariable("a", 0, 1));
    else
        e.addOutputVariable(new fl::OutputVariable("a", 0, 1));
    bool file = s.coin();
    std::string name = "never.R";
    c.say(in ? "no outputs" : "no inputs");
    bool thrown = false;
    try {
        if (file)
            fl::RScriptExporter().toFile(name, &e);
        else
            fl::RScriptExporter().toString(&e);
    } catch (fl::Exception&) {
        thrown = true;
    }
    bool exists = access(name.c_str(), F_OK) == 0;
    unlink(name.c_str());
    c.check(thrown && !exists, "errors", "an engine without inputs or outputs is exported");
    c.nontrivial(true);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P24", {
        {"scripts", scripts, 8000, 300000, "the engine has at least two inputs, and an output is plotted"},
        {"errors", errors, 50, 500, "every engine"},
    });
}
