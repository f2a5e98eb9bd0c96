// P22: importers return an engine or raise the library's exception for any text.
#include "build.h"
#include "live.h"
#include <algorithm>
#include <filesystem>
#include <fstream>
using namespace pbt;

static std::vector<std::string> exampleTexts[3];  // texts of the bundled examples by format

static void loadExamples() {
    const char* ext[] = {".fll", ".fcl", ".fis"};
    std::error_code ec;
    std::vector<std::string> paths;
    for (auto it = std::filesystem::recursive_directory_iterator(VERIF_REPO "/examples", ec); !ec && it != std::filesystem::recursive_directory_iterator(); it.increment(ec))
        paths.push_back(it->path().string());
    std::sort(paths.begin(), paths.end());
    for (auto& p : paths)
        for (int k = 0; k < 3; ++k)
            if (p.size() > 4 && p.substr(p.size() - 4) == ext[k] && std::filesystem::file_size(p) < 4000) {
                std::ifstream f(p);
                std::stringstream t;
                t << f.rdbuf();
                if (exampleTexts[k].size() < 40)
                    exampleTexts[k].push_back(t.str());
            }
}

static const std::vector<std::string>& classes() {
    static const std::vector<std::string> r
        = {"Arc", "Bell", "Binary", "Concave", "Constant", "Cosine", "Discrete", "Function", "Gaussian", "GaussianProduct", "Linear", "PiShape", "Ramp", "Rectangle", "SShape", "SemiEllipse",
           "Sigmoid", "SigmoidDifference", "SigmoidProduct", "Spike", "Trapezoid", "Triangle", "ZShape", "Aggregated", "Activated", "Unknown", "trimf", "constant", "linear", "function", "trapmf", "gaussmf", "discretemf"};
    return r;
}
static std::string number(Src& s) {
    static const std::vector<std::string> odd = {"nan", "inf", "-inf", "1e3", "1e400", "-", "+", ".", "1.2.3", "0x1p3", "1,5", "", "--1", "NaN", "Infinity", "1e", "9999999999999999999999", "1f", "0"};
    if (s.chance(1, 4))
        return s.oneOf(odd);
    return model::num(s.num(-5, 10));
}
static std::string formula(Src& s) {
    static const std::vector<std::string> t = {"x", "a", "1", "+", "-", "*", "/", "^", "(", ")", "sin", "pow", ",", "and", "or", "!", "~", "max", "%", ".", "x.y", "  ", "\t", "ln(", "0.5", "low"};
    std::string r;
    for (int i = s.range(0, 7); i > 0; --i)
        r += s.oneOf(t) + (s.coin() ? " " : "");
    return r;
}
static std::string ruleText(Src& s) {
    static const std::vector<std::string> t = {"if", "then", "is", "and", "or", "not", "very", "any", "a", "b", "low", "high", "with", "1.0", "0.5", "(", ")", "x", "y", "#", "seldom", ",", "IF"};
    if (s.coin())
        return s.oneOf(std::vector<std::string>{"if a is low then b is high", "if a is not low and (a is high or x is very low) then b is very high with 0.5", "if a is any then b is low and y is high",
            "if a is", "then", "if", "with", "if a is low then", "if () then b is low", "if a is low then b is low with", "if a is low then b is low with x", "if (a is low then b is low", "if a is low) then b is low", "if a is low and then b is low"});
    std::string r;
    for (int i = s.range(0, 14); i > 0; --i)
        r += s.oneOf(t) + " ";
    return r;
}
static std::string name(Src& s) {
    return s.oneOf(std::vector<std::string>{"a", "b", "x", "y", "low", "high", "", " ", "!!!", "a b", "1", "_", "a.b", "\xc3\xa9", "none", "a:b", "\"q\""});
}
static std::string params(Src& s) {
    if (s.chance(1, 5))
        return formula(s);
    std::string r;
    for (int i = s.range(0, 6); i > 0; --i)
        r += number(s) + " ";
    return r;
}

static std::string fllLine(Src& s) {
    switch (s.u(18)) {
        case 0: return "Engine: " + name(s);
        case 1: return "InputVariable: " + name(s);
        case 2: return "OutputVariable: " + name(s);
        case 3: return "RuleBlock: " + name(s);
        case 4: return "  enabled: " + s.oneOf(std::vector<std::string>{"true", "false", "", "1", "TRUE", "true false"});
        case 5: return "  range: " + number(s) + s.oneOf(std::vector<std::string>{" ", "", "  ", "\t"}) + number(s);
        case 6: return "  lock-range: " + s.oneOf(std::vector<std::string>{"true", "false", "x"});
        case 7: return "  term: " + name(s) + " " + s.oneOf(classes()) + " " + params(s);
        case 8: return "  term: " + name(s) + " Function " + formula(s);
        case 9: return "  aggregation: " + s.oneOf(std::vector<std::string>{"none", "Maximum", "", "Minimum", "NormalizedSum", " "});
        case 10: return "  defuzzifier: " + s.oneOf(std::vector<std::string>{"none", "Centroid", "Bisector", "WeightedAverage", "WeightedSum", "", "X", "MeanOfMaximum"}) + " " + s.oneOf(std::vector<std::string>{"", "100", "-3", "nan", "Automatic", "TakagiSugeno", "Tsukamoto", "x", "1e30"});
        case 11: return "  default: " + number(s);
        case 12: return s.oneOf(std::vector<std::string>{"  lock-previous: ", "  lock-valid: "}) + s.oneOf(std::vector<std::string>{"true", "false", ""});
        case 13: return "  " + s.oneOf(std::vector<std::string>{"conjunction", "disjunction", "implication", "accumulation", "description"}) + ": " + s.oneOf(std::vector<std::string>{"none", "Minimum", "Maximum", "", "AlgebraicSum", "X"});
        case 14: return "  activation: " + s.oneOf(std::vector<std::string>{"General", "First", "Last", "Highest", "Lowest", "Threshold", "Proportional", "none", "", "Minimum", "X"}) + " " + s.oneOf(std::vector<std::string>{"", "1", "2 0.5", "> 0.5", "nan", "x y", "-1", "1 nan", ">", "1e30 0"});
        case 15: return "  rule: " + ruleText(s);
        case 16: return s.oneOf(std::vector<std::string>{":", "", "#", " # x", "x", "x:", ":x", "key: value", "\r", "::"});
        default: return "  rule: if a is low then b is high";
    }
}
static std::string fclLine(Src& s) {
    switch (s.u(22)) {
        case 0: return "FUNCTION_BLOCK" + s.oneOf(std::vector<std::string>{" a", "", " a b", " "});
        case 1: return "END_FUNCTION_BLOCK";
        case 2: return "VAR_INPUT";
        case 3: return "VAR_OUTPUT";
        case 4: return "END_VAR";
        case 5: return name(s) + s.oneOf(std::vector<std::string>{": REAL;", ":REAL", ":", "", "::"});
        case 6: return "FUZZIFY " + name(s);
        case 7: return s.oneOf(std::vector<std::string>{"FUZZIFY", "DEFUZZIFY", "RULEBLOCK"});
        case 8: return "END_FUZZIFY";
        case 9: return "DEFUZZIFY " + name(s);
        case 10: return "END_DEFUZZIFY";
        case 11: return "RULEBLOCK " + name(s);
        case 12: return "END_RULEBLOCK";
        case 13: return "TERM " + name(s) + s.oneOf(std::vector<std::string>{" := ", ":=", " : = ", " ", " :="}) + s.oneOf(classes()) + " " + params(s) + ";";
        case 14: return "TERM " + name(s) + " := " + s.oneOf(std::vector<std::string>{"(0,1) (1,0)", "(0,1)(1,0", "5", "", "(", "()", "(0)", "(0,1) 2", "((0,1)", "x"}) + ";";
        case 15: return "METHOD" + s.oneOf(std::vector<std::string>{" : ", ":", "", " : : "}) + s.oneOf(std::vector<std::string>{"COG", "COA", "LM", "RM", "MM", "COGS", "COGSS", "NONE", "X", "", "Centroid", "WeightedAverage"}) + ";";
        case 16: return s.oneOf(std::vector<std::string>{"ACCU", "AND", "OR", "ACT"}) + s.oneOf(std::vector<std::string>{" : ", ":", ""}) + s.oneOf(std::vector<std::string>{"MIN", "MAX", "NONE", "X", "", "ASUM", "PROD"}) + ";";
        case 17: return "DEFAULT" + s.oneOf(std::vector<std::string>{" := ", ":=", " ", ""}) + s.oneOf(std::vector<std::string>{"nan", "1.0", "NC", "|", "| NC", "1 | NC", "nan | x", "", "1|", "1|NC|2"}) + ";";
        case 18: return "RANGE" + s.oneOf(std::vector<std::string>{" := ", ":=", " "}) + s.oneOf(std::vector<std::string>{"(0 .. 1)", "(0..1)", "(0 .. )", "()", "", "(0 1)", "( .. )", "(nan .. inf)", "0 .. 1", "(1 .. 2 .. 3)"}) + ";";
        case 19: return s.oneOf(std::vector<std::string>{"LOCK", "ENABLED"}) + s.oneOf(std::vector<std::string>{" : ", ":", " "}) + s.oneOf(std::vector<std::string>{"TRUE", "FALSE", "PREVIOUS", "RANGE", "PREVIOUS | RANGE", "|", "", "X", "PREVIOUS | X", "RANGE | RANGE"}) + ";";
        case 20: return "RULE" + s.oneOf(std::vector<std::string>{" 1 : ", ":", "", " "}) + ruleText(s) + ";";
        default: return s.oneOf(std::vector<std::string>{"", ";", "//", "#", "%", "// x", ":", "x", "//#", "a//b"});
    }
}
static std::string fisLine(Src& s) {
    switch (s.u(18)) {
        case 0: return "[System]";
        case 1: return s.oneOf(std::vector<std::string>{"[Input1]", "[Input", "[Input2]"});
        case 2: return s.oneOf(std::vector<std::string>{"[Output1]", "[Output", "[Output2] x"});
        case 3: return "[Rules]";
        case 4: return "Name='" + name(s) + "'";
        case 5: return s.oneOf(std::vector<std::string>{"AndMethod", "OrMethod", "ImpMethod", "AggMethod", "DefuzzMethod"}) + "=" + s.oneOf(std::vector<std::string>{"'min'", "'max'", "''", "'prod'", "'centroid'", "'wtaver'", "'x'", "", "'probor'", "=", "'mom'"});
        case 6: return s.oneOf(std::vector<std::string>{"Type", "Version", "NumInputs", "NumOutputs", "NumRules", "NumMFs", "Other"}) + "=" + number(s);
        case 7: return s.oneOf(std::vector<std::string>{"Enabled", "LockPrevious", "LockRange", "Default"}) + "=" + number(s);
        case 8: return "Range=" + s.oneOf(std::vector<std::string>{"[0 1]", "[0 ]", "[ 0 1 ]", "[]", "0 1", "[0 1", "", "[a b]", "[ ]", "[0  1]", "[nan inf]"});
        case 9:
        case 10: return s.oneOf(std::vector<std::string>{"MF1=", "MF=", "MF2="}) + "'" + name(s) + "':'" + s.oneOf(classes()) + "',[" + params(s) + "]";
        case 11: return "MF1=" + s.oneOf(std::vector<std::string>{"", ":", ",", "'a':'trimf'", "'a':'trimf',", "'a','trimf':[0 1 2]", "a:trimf,[0 1 2]:", "::,,", "'a':'trimf',[0 1 2],[3]", "'f':'function',[max(a, b)]"});
        case 12:
        case 13: {
            std::string r;
            for (int i = s.range(0, 3); i > 0; --i)
                r += s.oneOf(std::vector<std::string>{"1", "2", "0", "-1", "1.2", "2.99", "0.99", "-0.99", "9", "nan", "inf", "x", "-2.05", "1e10", "-1e300", "1.7"}) + " ";
            r += s.oneOf(std::vector<std::string>{", ", ",", "", ",,"});
            for (int i = s.range(0, 2); i > 0; --i)
                r += s.oneOf(std::vector<std::string>{"1", "2", "0", "-1", "1.3", "nan", "7", "1.4", "x"}) + " ";
            r += s.oneOf(std::vector<std::string>{"(1) : 1", "(0.5) : 2", "(1) :", ": 1", "(1) 1", "() : 1", "(x) : 1", "(1) : 3", "(1):1", " : 1", "( 1 ) : 1"});
            return r;
        }
        default: return s.oneOf(std::vector<std::string>{"", "=", "==", "%", "//", "#", "[", "[X]", "x", "x=y=z", "'", "Name", "=x"});
    }
}

static std::string someBytes(Src& s, int n) {
    std::string r;
    while (n-- > 0)
        r += s.chance(1, 3) ? (char)s.u(256) : s.oneOf(std::vector<char>{' ', ':', '\n', ';', '[', ']', '(', ')', '=', ',', '#', '/', 'a', '1', '.', '\'', '|', '\0'});
    return r;
}

// changes at the level of lines, tokens and characters
static std::string mutate(Src& s, std::string t, int k, const std::vector<std::string>& others) {
    std::vector<std::string> lines;
    std::string cur;
    for (char ch : t) {
        cur += ch;
        if (ch == '\n') {
            lines.push_back(cur);
            cur = "";
        }
    }
    if (!cur.empty())
        lines.push_back(cur);
    for (int i = s.coin() ? 1 : s.range(1, 4); i > 0 && !lines.empty(); --i) {
        size_t p = s.u(lines.size()), q = s.u(lines.size());
        size_t rules = 0;  // those of the Fuzzy Inference System are at the end
        while (k == 2 && rules < lines.size() && lines[rules].compare(0, 7, "[Rules]") != 0)
            ++rules;
        if (k == 2 && rules + 1 < lines.size() && s.chance(1, 3))
            p = rules + 1 + s.u(lines.size() - rules - 1);
        std::string& l = lines[p];
        switch (s.u(14)) {
            case 11:
            case 12:
            case 13: {  // another number in the place of one
                std::vector<std::pair<size_t, size_t>> numbers;
                for (size_t a = 0; a < l.size(); ++a)
                    if (isdigit((unsigned char)l[a]) && (a == 0 || !(isalnum((unsigned char)l[a - 1]) || l[a - 1] == '.' || l[a - 1] == '_'))) {
                        size_t b = a;
                        while (b < l.size() && (isdigit((unsigned char)l[b]) || l[b] == '.'))
                            ++b;
                        numbers.push_back({a > 0 && l[a - 1] == '-' ? a - 1 : a, b});
                        a = b;
                    }
                if (numbers.empty())
                    break;
                auto at = s.oneOf(numbers);
                std::string was = l.substr(at.first, at.second - at.first);
                double v = atof(was.c_str());
                static const std::vector<double> steps = {1, -1, 2, 5, 100, 0.5, 0.01, 0.2, 1e9, -1e9};
                switch (s.u(5)) {
                    case 0: was = was[0] == '-' ? was.substr(1) : "-" + was; break;
                    case 1: was = strf("%g", v + s.oneOf(steps)); break;
                    case 2: was = strf("%g", -v - s.oneOf(steps)); break;
                    case 3: was = s.oneOf(std::vector<std::string>{"0", "-0", "nan", "inf", "-inf", "1e400", "2147483648", "-1", ""}); break;
                    default: was += std::to_string(s.u(100)); break;
                }
                l.replace(at.first, at.second - at.first, was);
                break;
            }
            case 0: lines.erase(lines.begin() + p); break;
            case 1: { std::string copy = lines[p]; lines.insert(lines.begin() + q, copy); break; }
            case 2: std::swap(lines[p], lines[q]); break;
            case 3: l = (k == 0 ? fllLine(s) : k == 1 ? fclLine(s) : fisLine(s)) + "\n"; break;
            case 4: lines.insert(lines.begin() + p, (k == 0 ? fllLine(s) : k == 1 ? fclLine(s) : fisLine(s)) + "\n"); break;
            case 5: {  // drop a token
                size_t a = l.find_first_of(" :=,", s.u(l.size())), b = a == std::string::npos ? a : l.find_first_of(" :=,\n", a + 1);
                if (b != std::string::npos)
                    l.erase(a, b - a);
                break;
            }
            case 6: {  // replace a token
                size_t a = l.find_first_of(" :=,", s.u(l.size())), b = a == std::string::npos ? a : l.find_first_of(" :=,\n", a + 1);
                if (b != std::string::npos)
                    l.replace(a + 1, b - a - 1, s.oneOf(std::vector<std::string>{number(s), name(s), s.oneOf(classes()), "", "none"}));
                break;
            }
            case 7: l.erase(s.u(l.size()), 1 + s.u(3)); break;
            case 8: l.insert(s.u(l.size()), someBytes(s, s.range(1, 3))); break;
            case 9: l.resize(s.u(l.size())); break;
            default: {
                const std::string& o = s.oneOf(others);
                if (!o.empty()) {
                    size_t a = o.rfind('\n', s.u(o.size()));
                    a = a == std::string::npos ? 0 : a + 1;
                    lines.insert(lines.begin() + p, o.substr(a, o.find('\n', a) - a) + "\n");
                }
            }
        }
    }
    std::string r;
    for (auto& l : lines)
        r += l;
    return r;
}

static void import(Case& c, int k) {
    Src& s = c.src;
    std::string text, origin;
    std::vector<std::string> generated;
    switch (s.u(6)) {
        case 0:
            origin = "bytes";
            text = someBytes(s, s.range(0, 60));
            break;
        case 1:
        case 2: {
            origin = "lines";
            int n = s.range(0, 25);
            if (k == 0 && s.coin())
                text = "Engine: e\nInputVariable: a\n  range: 0 1\n  term: low Ramp 1 0\nOutputVariable: b\n  range: 0 1\n  term: high Ramp 0 1\n";
            if (k == 1 && s.coin())
                text = "FUNCTION_BLOCK e\nVAR_INPUT\na: REAL;\nEND_VAR\nVAR_OUTPUT\nb: REAL;\nEND_VAR\n" + s.oneOf(std::vector<std::string>{"FUZZIFY a\n", "DEFUZZIFY b\n", "RULEBLOCK r\n", ""});
            if (k == 2 && s.coin())
                text = "[System]\nName='e'\nAndMethod='min'\nOrMethod='max'\nImpMethod='min'\nAggMethod='max'\nDefuzzMethod='centroid'\n[Input1]\nName='a'\nMF1='low':'trimf',[0 1 2]\nMF2='m':'trimf',[0 1 2]\n[Output1]\nName='b'\n"
                       + s.oneOf(std::vector<std::string>{"", "MF1='high':'trimf',[0 1 2]\n[Rules]\n", "[Rules]\n"});
            for (int i = 0; i < n; ++i)
                text += (k == 0 ? fllLine(s) : k == 1 ? fclLine(s) : fisLine(s)) + "\n";
            if (k == 1 && s.coin())
                text += s.oneOf(std::vector<std::string>{"END_FUZZIFY\n", "END_DEFUZZIFY\n", "END_RULEBLOCK\n", "END_VAR\n"});
            break;
        }
        case 3:
        case 4: {
            origin = "mutated engine";
            model::GenOptions o;
            o.descriptions = true;
            o.activations = k != 1;
            o.hybrid = false;
            o.maxInputs = 2;
            o.maxRules = 3;
            model::Engine e = model::genEngine(s, o);
            EngineP a = build::engine(e);
            try {
                text = k == 0 ? fl::FllExporter().toString(a.get()) : k == 1 ? fl::FclExporter().toString(a.get()) : fl::FisExporter().toString(a.get());
            } catch (fl::Exception&) {
                c.discard();
            }
            text = mutate(s, text, k, exampleTexts[k].empty() ? std::vector<std::string>{text} : exampleTexts[k]);
            break;
        }
        default:
            origin = "mutated example";
            if (exampleTexts[k].empty())
                c.discard();
            text = mutate(s, s.oneOf(exampleTexts[k]), k, exampleTexts[k]);
    }
    c.note([&] { return text + "\n--- escaped: " + [&] {
        std::string r;
        for (char ch : text)
            r += isprint((unsigned char)ch) || ch == '\n' ? std::string(1, ch) : strf("\\x%02x", (unsigned char)ch);
        return r;
    }(); });
    std::string sep = k == 0 && s.chance(1, 8) ? s.oneOf(std::vector<std::string>{"|", ";", "", " "}) : "\n";
    std::string what, first, second;
    bool imported = false, rejected = false, exportThrows = false;
    auto once = [&](bool verbose) {
        fl::FllImporter fll(sep);
        fl::FclImporter fcl;
        fl::FisImporter fis;
        const fl::Importer* im = k == 0 ? (fl::Importer*)&fll : k == 1 ? (fl::Importer*)&fcl : (fl::Importer*)&fis;
        EngineP a;
        try {
            a.reset(im->fromString(text));
        } catch (fl::Exception& ex) {
            rejected = true;
            if (verbose)
                what = ex.getWhat();
            return;
        }
        imported = true;
        if (!a) {
            rejected = true;
            return;
        }
        // the engine can be exported, copied, restarted and deleted
        std::string out = fl::FllExporter().toString(a.get());
        if (verbose)
            first = out;
        else
            second = out;
        std::string status;
        a->isReady(&status);
        a->type(&status, &status);
        for (int x = 0; x < 5; ++x) {
            try {
                switch (x) {
                    case 0: fl::FclExporter().toString(a.get()); break;
                    case 1: fl::FisExporter().toString(a.get()); break;
                    case 2: fl::CppExporter().toString(a.get()); break;
                    case 3: fl::JavaExporter().toString(a.get()); break;
                    default: fl::FldExporter().header(a.get());
                }
            } catch (fl::Exception&) {
                exportThrows = true;
            }
        }
        EngineP b(a->clone());
        a->restart();
        a.reset();
    };
    long left = live::leftBy([&] { once(true); });
    c.check(left == 0, "leak", strf("%ld allocations are left after importing the text", left) + (rejected ? ", which is rejected: " + what : ""));
    c.check(!(imported && rejected), "null", imported ? "no engine and no exception, or different outcomes" : "");
    once(false);
    c.check(!(imported && rejected), "deterministic", "importing twice gives different outcomes");
    c.check(first == second, "deterministic", "importing twice gives different engines:\n" + first + "\n" + second);
    bool beyond = imported;
    if (rejected)  // gets past the first line
        beyond = text.find('\n') != std::string::npos && what.find("does not belong to any section") == std::string::npos && what.find("unexpected block") == std::string::npos
                 && what.find("unknown block definition") == std::string::npos && what.find("expected a colon here") == std::string::npos;
    c.nontrivial(beyond);
    c.label(origin);
    c.label(imported ? "imported" : "rejected");
    if (exportThrows)
        c.label("other exporters reject the engine");
}

static void fllTexts(Case& c) { import(c, 0); }
static void fclTexts(Case& c) { import(c, 1); }
static void fisTexts(Case& c) { import(c, 2); }

static void files(Case& c) {  // files that cannot be read
    Src& s = c.src;
    std::string path = s.oneOf(std::vector<std::string>{"", "/nonexistent/x.fll", "missing.fll", "/", "/dev/null/x", "."});
    int k = (int)s.u(3);
    c.say(path);
    fl::FllImporter fll;
    fl::FclImporter fcl;
    fl::FisImporter fis;
    const fl::Importer* im = k == 0 ? (fl::Importer*)&fll : k == 1 ? (fl::Importer*)&fcl : (fl::Importer*)&fis;
    try {
        EngineP e(im->fromFile(path));
        c.check(path == "/" || path == ".", "file", "a file that cannot be read is imported");
        c.label("directory");
    } catch (fl::Exception& ex) {
        c.label("exception");
    }
    c.nontrivial(true);
}

int main(int argc, char** argv) {
    loadExamples();
    fl::FactoryManager::instance();
    return pbt::main(argc, argv, "P22", {
        {"fll", fllTexts, 30000, 3000000, "the text is imported, or rejected after its first section begins"},
        {"fcl", fclTexts, 30000, 3000000, "the text is imported, or rejected after its first block begins"},
        {"fis", fisTexts, 30000, 3000000, "the text is imported, or rejected after its first section begins"},
        {"files", files, 400, 4000, "every path"},
    });
}
